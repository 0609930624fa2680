"""Harness core: check contexts, parallel parts, evidence, violations, known findings.

A check is a module /verif/checks/<id>.py with

    LEVEL  = "model_checking" | "exploration" | ...
    RULE   = text (for exploration evidence)
    ASSUMPTIONS = [...]
    PARTS  = {name: (function(ctx), {"x64": bool, ...})}

Every part runs in its own process (own jax), and explores a finite space
completely.  It reports what it covered through the Ctx.
"""

import importlib.util
import json
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("FLOWMC_SRC", "/repo/src")
KNOWN = os.path.join(VERIF, "known_findings.json")


class Ctx:
    def __init__(self, prop, part, tier, seed, only=None):
        self.prop, self.part, self.tier, self.seed, self.only = prop, part, tier, seed, only
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self._distinct = set()
        self.n_distinct = 0
        self.samples = []
        self.violations = {}
        self.n_violations = 0
        self.counters = {}
        self.notes = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def count(self, states=0, transitions=0, traces=0, evaluations=0):
        self.states += int(states)
        self.transitions += int(transitions)
        self.traces += int(traces)
        self.evaluations += int(evaluations)

    def bump(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def reach(self, cond, what):
        """Vacuity guard: the exploration reached what it is meant to reach (recorded in the evidence, not a verdict)."""
        self.bump(("reached: " if cond else "NOT REACHED: ") + what)
        if not cond:
            print(f"NOTE not reached: {what}", flush=True)

    def distinct(self, key):
        self._distinct.add(key)

    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))

    def violation(self, key, msg, **detail):
        """Report a violation.  `key` names the failing input/history stably."""
        self.n_violations += 1
        if key not in self.violations and len(self.violations) < 40:
            self.violations[key] = {"message": msg, "detail": jsonable(detail)}

    def check(self, ok, key, msg, **detail):
        if not bool(ok):
            self.violation(key, msg, **detail)
            return False
        return True

    def dump(self):
        return {
            "states": self.states,
            "transitions": self.transitions,
            "traces": self.traces,
            "evaluations": self.evaluations,
            "distinct": len(self._distinct) + self.n_distinct,
            "samples": self.samples,
            "violations": self.violations,
            "n_violations": self.n_violations,
            "counters": self.counters,
            "notes": self.notes,
        }


def jsonable(x, depth=0):
    import numpy as np

    if depth > 6:
        return str(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:64]]
    if isinstance(x, (str, bool, int)) or x is None:
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else str(x)
    try:
        a = np.asarray(x)
        if a.dtype != object:
            if a.size > 256:
                return {"shape": list(a.shape), "head": jsonable(a.reshape(-1)[:16].tolist(), depth + 1)}
            return jsonable(a.tolist(), depth + 1)
    except Exception:
        pass
    return str(x)[:300]


def load_check(prop):
    path = os.path.join(VERIF, "checks", prop.lower() + ".py")
    spec = importlib.util.spec_from_file_location("check_" + prop.lower(), path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def _from_repo(tb, traced=True):
    """True if the innermost frame that is neither site-packages nor stdlib is in /repo."""
    frames = traceback.extract_tb(tb)
    exc = sys.exc_info()[1]
    if traced and type(exc).__name__ in ("TracerBoolConversionError", "TracerArrayConversionError", "TracerIntegerConversionError", "ConcretizationTypeError"):
        return None  # Python control flow on values the harness traces: not a fault of the code
    if "materialize symbols" in str(exc) or "RESOURCE_EXHAUSTED" in str(exc):
        return None  # the process ran out of room for compiled code
    for f in reversed(frames):
        fn = os.path.realpath(f.filename)
        if fn.startswith(os.path.realpath(REPO_SRC)):
            return f
        if fn.startswith(os.path.realpath(VERIF)):
            return None
    return None


def run_part(prop, part, tier, seed, out, only=None):
    opts = {}
    mod = None
    ctx = Ctx(prop, part, tier, seed, only)
    try:
        import jax

        mod = load_check(prop)
        fn, opts = mod.PARTS[part]
        if opts.get("x64"):
            jax.config.update("jax_enable_x64", True)
        import flowMC

        where = os.path.realpath(list(flowMC.__path__)[0])
        if not where.startswith(os.path.realpath(REPO_SRC)):
            raise RuntimeError("flowMC imported from " + where)
        fn(ctx)
        res = ctx.dump()
    except Exception as e:
        tb = e.__traceback__
        f = _from_repo(tb)
        text = "".join(traceback.format_exception(e))
        res = ctx.dump()
        if f is not None:
            res["violations"]["exception:" + part + ":" + type(e).__name__] = {
                "message": f"the code under test raised {type(e).__name__}: {str(e)[:300]} "
                f"(at {os.path.basename(f.filename)} in {f.name})",
                "detail": {"traceback": text[-3000:]},
            }
            res["n_violations"] += 1
        else:
            res["error"] = text[-4000:]
    with open(out, "w") as h:
        json.dump(res, h)


def guard(ctx, key, fn, *a, traced=True, **k):
    """Run fn; an exception raised from flowMC code is a violation with this key.

    traced=False: fn calls the code on concrete values, so an error about traced values is the code's own."""
    try:
        return fn(*a, **k)
    except Exception as e:
        f = _from_repo(e.__traceback__, traced)
        if f is None:
            raise
        ctx.violation(
            key,
            f"the code under test raised {type(e).__name__}: {str(e)[:200]} "
            f"(at {os.path.basename(f.filename)} in {f.name})",
        )
        return None


def known_for(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as h:
        data = json.load(h)
    return [e for e in data["findings"] if e["property"] == prop and e["status"] == "known"]


def main(prop, tier, seed, parts=None, only=None, jobs=None):
    import tempfile

    t0 = time.time()
    mod = load_check(prop)
    names = [p for p, (f, o) in mod.PARTS.items() if not (o.get("thorough_only") and tier != "thorough")]
    if parts:
        names = [n for n in mod.PARTS if n in parts]
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "6"))
    limit = float(os.environ.get("VERIF_PART_LIMIT", "840" if tier == "quick" else "20000"))
    results = {}
    with tempfile.TemporaryDirectory(prefix="mc-" + prop + "-") as tmp:
        pending = list(names)
        running = {}
        env = dict(os.environ)
        env["PYTHONPYCACHEPREFIX"] = os.path.join(tmp, "pyc")
        while pending or running:
            while pending and len(running) < jobs:
                n = pending.pop(0)
                out = os.path.join(tmp, n + ".json")
                log = open(os.path.join(tmp, n + ".log"), "w")
                cmd = [sys.executable, os.path.join(VERIF, "run.py"), prop, "--tier", tier, "--worker", n, "--out", out, "--seed", str(seed)]
                if only:
                    cmd += ["--only", only]
                running[n] = (subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, cwd=tmp), out, log, time.time())
            time.sleep(0.02)
            for n in list(running):
                p, out, log, st = running[n]
                if p.poll() is None:
                    if time.time() - st > limit:
                        p.kill()
                        p.wait()
                        results[n] = {"error": f"part exceeded {limit} s"}
                        del running[n]
                    continue
                log.close()
                if os.path.exists(out):
                    results[n] = json.load(open(out))
                    results[n]["wall"] = round(time.time() - st, 1)
                else:
                    with open(log.name) as h:
                        results[n] = {"error": f"worker exited {p.returncode}\n" + h.read()[-3000:]}
                del running[n]

    errors = {n: r["error"] for n, r in results.items() if "error" in r}
    known = known_for(prop)
    viol, kf = [], []
    for n in names:
        for key, v in results[n].get("violations", {}).items():
            full = f"{n}/{key}"
            hit = [e for e in known if e["match"] == full]
            (kf if hit else viol).append((full, v, hit[0] if hit else None))

    cov = {
        "parts": {n: {k: results[n].get(k) for k in ("states", "transitions", "traces", "evaluations", "distinct", "counters", "wall", "notes") if results[n].get(k)} for n in names},
        "samples": [s for n in names for s in results[n].get("samples", [])][:8],
        "exhaustive": not errors,
    }
    tot = lambda k: sum(results[n].get(k, 0) or 0 for n in names)
    if mod.LEVEL == "model_checking":
        cov.update(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("traces"))
        if getattr(mod, "BOUNDS", None):
            cov["explanation"] = mod.BOUNDS
    else:
        cov.update(evaluations=tot("evaluations"), distinct_nontrivial=tot("distinct"), rule=mod.RULE)
        if getattr(mod, "BOUNDS", None):
            cov["explanation"] = mod.BOUNDS
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if not parts:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as h:
            json.dump(ev, h, indent=1)

    for full, v, e in kf:
        print(f"KNOWN-FINDING: property={prop} {e['what']}")
    rc = 0
    if viol:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, (full, v, _) in enumerate(viol[:20]):
            path = os.path.join(rdir, f"{prop}-{i}.json")
            with open(path, "w") as h:
                json.dump(
                    {
                        "property": prop,
                        "part": full.split("/")[0],
                        "key": full,
                        "message": v["message"],
                        "detail": v["detail"],
                        "replay_cmd": f"cd /verif && ./run.sh {prop} --tier {tier} --part {full.split('/')[0]}",
                    },
                    h,
                    indent=1,
                )
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {full}: {v['message']}"[:600])
        rc = 1
    elif errors:
        rc = 2
    for n, e in errors.items():
        print(f"ERROR in part {n} of {prop}:\n{e}", file=sys.stderr)
    if rc == 0:
        c = {k: cov[k] for k in ("states", "transitions", "traces_validated_against_impl", "evaluations", "distinct_nontrivial") if k in cov}
        print(f"OK property={prop} tier={tier} {c} wall={ev['wall_s']}s")
    return rc
