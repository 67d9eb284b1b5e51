"""P14: runs are reproducible and isolated from each other.

Histories: every sequence (bounded length) of other uses of the library before and around
the observed run; the observed log must be the one of a fresh run.  The real random
generators are used.  Fresh interpreters with other hash seeds must give the same logs."""
import copy
import hashlib
import itertools
import json
import os
import random
import subprocess
import sys

import numpy as np

from .. import boot, build, simrun, suites
from ..harness import Result

LEVEL = "model_checking"
OPS = ("same", "fresh", "other", "draw", "seed", "init", "kpi")
RULE = ("All sequences of preceding uses (run of the same object, of an equal configuration, of another system, draws from and "
        "seeding of the process-wide generators, initialisation without run, KPI computation) up to length 2 (quick) or 3 (thorough), "
        "all interleavings of initialising and running two simulations, fresh interpreters with 3 (quick) or 8 (thorough) hash seeds, "
        "two horizons. Non-trivial: the log has more than ten events.")
ASSUMPTIONS = ["within one interpreter version and one version of the libraries",
               "hash seeds are sampled by 3 or 8 values; the order of sets of a few strings takes most of its values over them"]


def scenarios(tier):
    th = tier == "thorough"
    out = suites.FAMILIES["rand"](tier)
    for f, ts in suites.FAMILIES.items():
        if f == "rand":
            continue
        ts = ts(tier)
        out += ts[::max(1, len(ts) // (12 if th else 5))]
    return out


def fresh(task, seed=None):
    spec = copy.deepcopy(task["spec"])
    if seed is not None:
        spec["seed"] = seed
    return build.build(spec)


def init(a):
    from prodsys.util.runner import Runner
    r = Runner(adapter=a)
    r.initialize_simulation()
    return r


def log(r):
    return json.dumps(simrun.norm_log(r.event_logger.event_data), default=str)


def run(a, h):
    r = init(a)
    r.run(h)
    return log(r)


def digest(task):
    try:
        return hashlib.md5(run(fresh(task), task["horizon"]).encode()).hexdigest()
    except Exception as e:
        return f"{type(e).__name__}: {str(e)[:100]}"


def tasks(tier):
    th = tier == "thorough"
    out = []
    sc = scenarios(tier)
    for t in sc:
        out.append(dict(name="run/" + t["name"], kind="run", sc=t))
    hs = [t for t in sc if t["name"].startswith("rand/")] + sc[15::6]
    for t in hs[:None if th else 14]:
        out.append(dict(name="hist/" + t["name"], kind="hist", sc=t, depth=3 if th else 2, weight=5))
    for k in range(1, 9 if th else 4):
        out.append(dict(name=f"hashseed/{k}", kind="hash", k=k, tier=tier, weight=20))
    for t in [t for t in sc if t["name"].startswith("rand/")]:
        out.append(dict(name="seeds/" + t["name"], kind="seeds", sc=t))
    return out


def rng_state():
    return random.getstate(), str(np.random.get_state())


def apply(op, t, adapter, other):
    h = t["horizon"]
    if op == "same":
        run(adapter, h)
    elif op == "fresh":
        run(fresh(t), h)
    elif op == "other":
        run(build.build(other), 40)
    elif op == "draw":
        random.random(), np.random.rand(3), np.random.choice([1, 2, 3])
    elif op == "seed":
        random.seed(99), np.random.seed(98)
    elif op == "init":
        init(adapter)
    elif op == "kpi":
        r = init(fresh(t))
        r.run(h)
        try:
            r.get_performance_data()
        except Exception:
            pass  # KPIs are the subject of another property


def run_task(task, tier):
    res = Result()
    k = task["kind"]
    if k == "hash":
        return _hash(task, res)
    t = task["sc"]
    h = t["horizon"]
    other = suites.FAMILIES["rand"]("quick")[4]["spec"]
    if k == "run":
        a = fresh(t)
        before = a.model_dump_json()
        st = rng_state()
        r = init(a)
        r.run(h)
        l = log(r)
        res["runs"] = 1
        if rng_state() != st:
            res.violate("rng-state-changed", f"{t['name']}: the process-wide random state differs after the run")
        if a.model_dump_json() != before:
            res.violate("configuration-changed", f"{t['name']}: running changed the configuration")
        ref = simrun.norm_log(r.event_logger.event_data)
        if len(ref) > 10:
            res["nontrivial"] += 1
        for frac in (0.25, 0.5, 0.77):
            h2 = round(h * frac, 1)
            r2 = init(fresh(t))
            r2.run(h2)
            l2 = simrun.norm_log(r2.event_logger.event_data)
            want = [e for e in ref if e["t"] < h2]
            res["runs"] += 1
            if json.dumps(l2, default=str) != json.dumps(want, default=str):
                i = next((i for i, (x, y) in enumerate(itertools.zip_longest(l2, want)) if x != y), -1)
                res.violate("not-a-prefix", f"{t['name']}: run to {h2} is no prefix of run to {h}: event {i}: "
                            f"{l2[i] if i < len(l2) else None} vs {want[i] if i < len(want) else None}")
            res["states"] |= {hash((t["name"], h2, json.dumps(e, default=str))) for e in l2}
        # the order of independent definitions of time models must not matter for a second equal build
        l3 = run(fresh(t), h)
        res["runs"] += 1
        if l3 != l:
            res.violate("not-reproducible", f"{t['name']}: two runs of equal configurations differ")
        res["transitions"] += len(ref)
        res["states"] |= {hash((t["name"], json.dumps(e, default=str))) for e in ref}
        res["outcomes"].add(hash(l))
        return res
    if k == "seeds":
        logs = {run(fresh(t, s), h) for s in range(5)}
        res["runs"] += 5
        res["nontrivial"] += 1
        res["outcomes"] |= {hash(x) for x in logs}
        if len(logs) < 2:
            res.violate("seed-ignored", f"{t['name']}: five seeds give the same run")
        return res
    # histories
    ref = run(fresh(t), h)
    res["outcomes"].add(hash(ref))
    res["samples"].append({"scenario": t["name"], "history": ["other", "same"], "events": ref.count('"t"')})
    for n in range(1, task["depth"] + 1):
        for seq in itertools.product(OPS, repeat=n):
            a = fresh(t)
            for op in seq:
                apply(op, t, a, other)
            st = rng_state()
            l = run(a, h)
            res["runs"] += 1
            res["nontrivial"] += 1
            res["transitions"] += n + 1
            res["states"].add(hash((t["name"], seq)))
            if l != ref:
                res.violate("history-dependent", f"{t['name']}: after {seq} the run differs from a fresh run")
            if rng_state() != st:
                res.violate("rng-state-changed", f"{t['name']}: after {seq}")
    # two simulations in use at the same time: all interleavings of (init, run) x (init, run)
    for order in set(itertools.permutations("aabb")):
        st = {}
        got = {}
        for x in order:
            if x not in st:
                st[x] = init(fresh(t) if x == "a" else build.build(other))
            else:
                st[x].run(h if x == "a" else 40)
                got[x] = log(st[x])
        res["runs"] += 1
        res["states"].add(hash((t["name"], order)))
        if got["a"] != ref:
            res.violate("interleaving-dependent", f"{t['name']}: {''.join(order)} gives another log")
    return res


def _hash(task, res):
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(task["k"])
    p = subprocess.run([boot.PY, "-B", os.path.join(boot.VERIF, "mc", "p14_worker.py"), task["tier"]],
                       env=env, capture_output=True, text=True, cwd=boot.VERIF)
    line = [x for x in p.stdout.splitlines() if x.startswith("{")]
    if p.returncode or not line:
        raise RuntimeError(p.stderr[-1500:])
    got = json.loads(line[-1])
    for t in scenarios(task["tier"]):
        d = digest(t)
        res["runs"] += 1
        res["nontrivial"] += 1
        res["transitions"] += 1
        res["states"].add(hash((task["k"], t["name"], d)))
        if got.get(t["name"]) != d:
            res.violate("hash-seed", f"{t['name']}: another log in a fresh interpreter with hash seed {task['k']}", scenario=t["name"])
    return res
