"""Run the harnesses of one property, replay counterexamples, write evidence."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


class Harness:
    """One symbolic harness.

    bounds   -- text: what is bounded, and what lies outside
    covers   -- labels that must be reached (reachability witnesses)
    params   -- dict of values ('quick'/'thorough') handed to fn(ctx, **params)
    setup    -- context manager factory used around each path in both modes
    """

    def __init__(self, name, fn, bounds="", covers=(), quick=None, thorough=None, max_paths=20000, time_budget=400.0,
                 concretize_limit=64, query_timeout_ms=20000, stubs=(), only=None, validate=True, min_checks=1):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.covers = tuple(covers)
        self.quick = quick or {}
        self.thorough = thorough if thorough is not None else dict(self.quick)
        self.max_paths = max_paths
        self.time_budget = time_budget
        self.concretize_limit = concretize_limit
        self.query_timeout_ms = query_timeout_ms
        self.stubs = tuple(stubs)
        self.only = only
        self.validate = validate
        self.min_checks = min_checks


def _monitor():
    """record which functions of /repo/qermit are executed symbolically"""
    seen = set()
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "symx")
    except ValueError:
        return seen

    def start(code, off):
        f = code.co_filename
        if f.startswith(REPO + "/qermit"):
            seen.add((f[len(REPO) + 1:], code.co_qualname))
        return mon.DISABLE

    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)
    return seen


def _near(a, b):
    if b is None or a is None:
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_near(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(_near(a[k], b[k]) for k in a)
    try:
        return abs(complex(a) - complex(b)) <= 1e-6 * max(1.0, abs(complex(a)), abs(complex(b)))
    except Exception:
        return str(a) == str(b)


def _plain(v):
    import numpy as np
    import sympy
    if isinstance(v, np.ndarray):
        return [_plain(x) for x in v.tolist()]
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, dict):
        return {k: _plain(x) for k, x in v.items()}
    if isinstance(v, sympy.Basic):
        c = complex(v)
        return c.real if c.imag == 0 else c
    return v


def run_concrete(h, params, assignment, rng=None):
    """-> (failed, observed, exc, used)"""
    from . import engine as E
    c = E.ConcretePath(assignment, rng)
    exc = None
    try:
        h.fn(c, **params)
    except E.PathAbort:
        exc = "abort"
    except E.ViolationFound:
        pass
    except E.Inconclusive as ex:
        exc = f"inconclusive {ex}"
    except Exception as ex:
        exc = "raise " + "".join(traceback.format_exception(ex)[-8:])
    return c, exc


QUICK_LIMIT = 560.0   # seconds: quick runs end their exploration by then, whatever is left is reported as degraded
QUICK_KILL = 700.0


def _worker(job):
    modname, hname, tier, seed, q, deadline = job
    t0 = time.time()
    from . import engine as E
    from . import shims
    out = {"harness": hname}
    try:
        mod = importlib.import_module(modname)
        h = next(x for x in mod.HARNESSES if x.name == hname)
        params = h.quick if tier == "quick" else h.thorough
        seen = _monitor()

        def fn(ctx):
            h.fn(ctx, **params)

        eng = E.Engine(hname, fn, query_timeout_ms=h.query_timeout_ms, max_paths=h.max_paths,
                       time_budget=min(h.time_budget, max(5.0, deadline - t0)) if deadline else h.time_budget, concretize_limit=h.concretize_limit, seed=seed)
        shims.install()
        try:
            eng.explore()
        finally:
            shims.uninstall()
        st = eng.stats
        out.update(paths=st.paths, aborted=st.aborted, branches=st.branches, queries=st.queries, checks=st.checks,
                   solver_s=round(st.solver_s, 3), covers=st.covers, labels=st.labels, violations=eng.violations,
                   inconclusive=eng.inconclusive, complete=eng.complete, functions=sorted(seen), bounds=h.bounds,
                   params={k: repr(v)[:200] for k, v in params.items()}, stubs=list(h.stubs))
        # encoding validation: replay solver models of proved paths on the real, unpatched code
        val, mism, samples = 0, [], []
        if h.validate and not eng.violations:
            for assignment, obs in eng.models:
                c, exc = run_concrete(h, params, assignment)
                if exc == "abort":
                    continue
                if exc or c.failed:
                    mism.append({"assignment": assignment, "exc": exc, "failed": c.failed})
                    continue
                bad = [n for (n, a), (n2, b) in zip(c.observed, obs) if n == n2 and not _near(_plain(a), b)]
                if bad:
                    mism.append({"assignment": assignment, "observed": str(bad)})
                else:
                    val += 1
                    if len(samples) < 2:
                        samples.append({"harness": hname, "solver_assignment": {k: str(v) for k, v in list(assignment.items())[:12]},
                                        "observed": [[n, str(_plain(a))[:160]] for n, a in c.observed[:4]]})
        out.update(validated=val, mismatches=mism, samples=samples)
        # degraded mode: the symbolic run could not be completed
        if not eng.violations and eng.inconclusive:
            out.update(degraded=_degraded(h, params, seed))
    except BaseException as ex:  # report, never hang the pool
        out["crash"] = "".join(traceback.format_exception(ex)[-12:])
    out["wall_s"] = round(time.time() - t0, 2)
    q.put(out)
    q.close()
    q.join_thread()
    os._exit(0)


def _degraded(h, params, seed, limit=400, budget=60.0):
    """Fallback when a proxy can not pass through some construct: execute the
    real code on concrete values only.  Reported as degraded, never as proved."""
    import random
    rng = random.Random(seed)
    t0 = time.time()
    n = 0
    fails = []
    while n < limit and time.time() - t0 < budget:
        c, exc = run_concrete(h, params, {}, rng)
        n += 1
        if exc == "abort":
            continue
        if c.failed or (exc and exc.startswith("raise")):
            fails.append({"harness": h.name, "label": c.failed[0][0] if c.failed else "raised", "detail": exc or (c.failed[0][1]),
                          "assignment": c.used})
            break
    return {"runs": n, "violations": fails}


def replay_file(path):
    """Run in a clean interpreter, unpatched code.  exit 1 iff the violation reproduces."""
    with open(path) as f:
        d = json.load(f)
    mod = importlib.import_module(d["module"])
    h = next(x for x in mod.HARNESSES if x.name == d["harness"])
    params = h.quick if d["tier"] == "quick" else h.thorough
    c, exc = run_concrete(h, params, d["assignment"])
    if c.failed:
        print("REPRODUCED", d["harness"], c.failed)
        return 1
    if exc and exc.startswith("raise"):
        print("REPRODUCED exception", exc)
        return 1
    print("NOT-REPRODUCED", exc)
    return 0


def load_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:") and f"property={pid} " in line:
                kv = dict(x.split("=", 1) for x in line.split() if "=" in x)
                out.append((kv, line))
    return out


def main(pid, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--stop-first", action="store_true", help="for mutation testing: no further harnesses after a violation")
    a = ap.parse_args(argv)
    if a.replay:
        return replay_file(a.replay)
    tier = a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    modname = f"checks.{pid.lower()}"
    # importing here (before forking) makes every worker share the loaded code
    mod = importlib.import_module(modname)
    hs = [h for h in mod.HARNESSES if (not a.only or h.name in a.only.split(",")) and (h.only is None or h.only == tier)]
    ctx = mp.get_context("fork")
    pending = [h.name for h in hs]
    running = {}
    results = {}
    while pending or running:
        while pending and len(running) < a.jobs:
            n = pending.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=_worker, args=((modname, n, tier, seed, q, t0 + QUICK_LIMIT if tier == "quick" else None),), daemon=True)
            p.start()
            running[n] = (p, q)
        for n in list(running):
            p, q = running[n]
            try:
                r = q.get(timeout=0.02)
            except Exception:
                if not p.is_alive():
                    try:
                        r = q.get(timeout=1.0)
                    except Exception:
                        r = {"harness": n, "crash": f"worker died with {p.exitcode}"}
                elif tier == "quick" and time.time() - t0 > QUICK_KILL:
                    p.kill()
                    r = {"harness": n, "inconclusive": ["out of time"], "violations": [], "covers": {}, "checks": 0}
                else:
                    continue
            p.join(5)
            if p.is_alive():
                p.kill()
            results[n] = r
            del running[n]
            if a.stop_first and r.get("violations"):
                for p, _ in running.values():
                    p.kill()
                hs = [h for h in hs if h.name in results]
                pending, running = [], {}
                break
            if a.verbose:
                print(json.dumps({k: v for k, v in r.items() if k not in ("functions", "samples", "labels", "bounds")}, indent=1, default=str)[:6000])
        time.sleep(0.01)
    # ---- collect -------------------------------------------------------
    violations, errors, degraded = [], [], []
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    findings = load_findings(pid)
    known_hit = set()
    for h in hs:
        r = results[h.name]
        if "crash" in r:
            errors.append(f"{h.name}: {r['crash']}")
            continue
        cands = list(r["violations"])
        for m in r.get("mismatches", []):
            if m.get("exc") or m.get("failed"):
                cands.append({"harness": h.name, "label": "encoding validation: " + str(m.get("failed") or m.get("exc"))[:500],
                              "detail": None, "assignment": m["assignment"]})
            else:
                errors.append(f"{h.name}: proxies disagree with the real code: {m}")
        if r.get("degraded"):
            cands += r["degraded"]["violations"]
        n_rep = 0
        for i, v in enumerate(cands):
            path = os.path.join(rdir, f"{pid}-{h.name}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "module": modname, "harness": h.name, "tier": tier, "label": v["label"],
                           "detail": v["detail"], "assignment": v["assignment"]}, f, indent=1, default=str)
            p = subprocess.run([sys.executable, os.path.join(VERIF, "run_check.py"), pid, "--replay", path],
                               capture_output=True, text=True, env=dict(os.environ))
            if p.returncode == 1 and "REPRODUCED" in p.stdout:
                violations.append((h.name, v, path, p.stdout.strip()[-1500:]))
                n_rep += 1
            else:
                # a counterexample that the real code does not show: the encoding was at fault
                r["inconclusive"] = r.get("inconclusive", []) + [f"counterexample not reproduced: {v['label']} {v.get('detail') or ''} {p.stdout[-400:]} {p.stderr[-400:]}"]
        if n_rep == 0:
            if r["inconclusive"]:
                d = r.get("degraded")
                if d is None:
                    d = _run_degraded(modname, h, tier, seed, 25.0 if time.time() - t0 > QUICK_LIMIT else 60.0)
                    if d["violations"]:
                        for i, v in enumerate(d["violations"]):
                            path = os.path.join(rdir, f"{pid}-{h.name}-d{i}.json")
                            with open(path, "w") as f:
                                json.dump({"property": pid, "module": modname, "harness": h.name, "tier": tier, "label": v["label"],
                                           "detail": v["detail"], "assignment": v["assignment"]}, f, indent=1, default=str)
                            violations.append((h.name, v, path, str(v)[:500]))
                degraded.append({"harness": h.name, "why": [str(x)[:1500] for x in r["inconclusive"]], "concrete_runs": d["runs"]})
                if d["runs"] == 0:
                    errors.append(f"{h.name}: no answer: {r['inconclusive']}")
            else:
                missing = [c for c in h.covers if not r["covers"].get(c)]
                if missing:
                    degraded.append({"harness": h.name, "why": [f"vacuous: {missing} never reached"], "concrete_runs": 0})
                    errors.append(f"{h.name}: vacuous: {missing} never reached")
                if r["checks"] < h.min_checks:
                    errors.append(f"{h.name}: no property query was made")
    wall = time.time() - t0
    # ---- findings --------------------------------------------------------
    new = []
    for hn, v, path, outp in violations:
        hit = None
        for kv, line in findings:
            if kv.get("harness") == hn and kv.get("label", "").replace("_", " ") in v["label"].replace("_", " "):
                hit = line
        if hit:
            known_hit.add(hit)
        else:
            new.append((hn, v, path, outp))
    for kv, line in findings:
        print(f"KNOWN-FINDING: property={pid} " + line.split(" what=", 1)[-1])
    # ---- evidence ----------------------------------------------------------
    fns, files = set(), {}
    for r in results.values():
        for f, n in r.get("functions", []):
            fns.add(f"{f}::{n}")
            files[f] = None
    for f in files:
        try:
            files[f] = hashlib.sha256(open(os.path.join(REPO, f), "rb").read()).hexdigest()[:16]
        except OSError:
            pass
    tot = lambda k: sum(r.get(k, 0) or 0 for r in results.values())
    samples = []
    for r in results.values():
        samples += r.get("samples", [])
    if not samples:
        samples = [{"harness": hn, "counterexample": {k: str(x) for k, x in v["assignment"].items()}} for hn, v, _, _ in violations] or [{"note": "no path completed"}]
    from . import shims
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("branches") + tot("checks"),
            "traces_validated_against_impl": tot("validated"), "samples": samples[:24],
            "solver_queries": tot("queries"), "property_assertions_discharged": tot("checks"), "solver_seconds": round(tot("solver_s"), 2),
            "symbolic_paths": tot("paths"), "forks": tot("branches"),
            "functions_encoded": sorted(fns), "source_sha256": files,
            "degraded_harnesses": degraded,
            "harnesses": [{k: results[h.name].get(k) for k in ("harness", "paths", "aborted", "branches", "queries", "checks", "solver_s", "wall_s", "validated", "complete", "covers", "bounds", "params", "stubs")} for h in hs],
            "explanation": "states = symbolic paths of the real functions executed and decided; transitions = forks decided plus property assertions discharged by z3.",
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + ["floats are read as exact reals; rounding is outside the claim",
                                                              "stand-ins active in symbolic runs: " + "; ".join(shims.INSTALLED)],
        "wall_s": round(wall, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid} tier={tier}: {len(hs)} harnesses, {tot('paths')} paths, {tot('queries')} queries, {tot('checks')} assertions, "
          f"solver {tot('solver_s'):.1f}s, validated {tot('validated')}, wall {wall:.1f}s")
    for d in degraded:
        print("DEGRADED", d["harness"], str(d["why"])[:3000])
    for hn, v, path, outp in new:
        print(f"counterexample in {hn}: {v['label']} {v.get('detail') or ''}"[:3000])
        print("  assignment:", {k: str(x) for k, x in v["assignment"].items()})
        print("  replay:", outp[:1500])
        print(f"VIOLATION property={pid} replay={path}")
    if new:
        return 1
    if errors:
        for e in errors:
            print("ERROR", e)
        return 3
    return 0


def _run_degraded(modname, h, tier, seed, budget=60.0):
    ctx = mp.get_context("fork")
    q = ctx.Queue()

    def w():
        params = h.quick if tier == "quick" else h.thorough
        q.put(_degraded(h, params, seed, budget=budget))
        q.close()
        q.join_thread()
        os._exit(0)

    p = ctx.Process(target=w, daemon=True)
    p.start()
    try:
        r = q.get(timeout=2.5 * budget)
    except Exception:
        r = {"runs": 0, "violations": []}
    p.kill()
    return r
