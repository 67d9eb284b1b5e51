"""Runs a check's tasks in parallel, applies the known-findings file, writes evidence."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import boot

KNOWN = os.path.join(boot.VERIF, "known_findings.json")
EVID = os.path.join(boot.VERIF, "evidence")
REPLAY = os.path.join(boot.VERIF, "replays")
WORKERS = int(os.environ.get("MC_WORKERS", "8"))

_mod = None
_tier = "quick"


class Result(dict):
    """runs, states, transitions, nontrivial, outcomes(set), violations(list), samples, capped"""

    def __init__(self):
        super().__init__(runs=0, states=set(), transitions=0, nontrivial=0, outcomes=set(),
                         violations=[], samples=[], capped=0, notes=[])

    def violate(self, sig, msg, **replay):
        if len(self["violations"]) < 20:
            self["violations"].append({"sig": sig, "msg": str(msg)[:600], "replay": replay})


def _work(task):
    t0 = time.time()
    try:
        r = _mod.run_task(task, _tier)
        r["task"] = task["name"]
        r["wall"] = time.time() - t0
        return r
    except BaseException as e:  # a defect of the harness itself
        return {"task": task["name"], "crash": f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}"}


def load_known(pid):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data["findings"] if k["property"] == pid]


def seeded_order(tasks, seed):
    """Start order only: the set of tasks does not depend on the seed."""
    return sorted(tasks, key=lambda t: (-t.get("weight", 1),
                                        hashlib.md5(f"{seed}:{t['name']}".encode()).hexdigest()))


def main(pid, argv):
    global _mod, _tier
    ap = argparse.ArgumentParser()
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--serial", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    _tier = a.tier
    t0 = time.time()
    boot.quiet()
    _mod = importlib.import_module(f"mc.checks.{pid.lower()}")
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        r = _mod.replay(rep) if hasattr(_mod, "replay") else _mod.run_task(rep["task"], _tier)
        for v in r["violations"]:
            print("REPRODUCED", v["sig"], v["msg"])
        return 1 if r["violations"] else 0
    tasks = _mod.tasks(_tier)
    names = [t["name"] for t in tasks]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1][:5]
    if a.only:
        tasks = [t for t in tasks if a.only in t["name"]]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tasks = seeded_order(tasks, seed)
    tot = Result()
    crashes, perwall = [], []
    if a.serial:
        it = map(_work, tasks)
        pool = None
    else:
        pool = mp.get_context("fork").Pool(min(WORKERS, max(1, len(tasks))))
        it = pool.imap_unordered(_work, tasks, chunksize=1)
    for r in it:
        if "crash" in r:
            crashes.append(r)
            continue
        perwall.append((r["wall"], r["task"]))
        tot["runs"] += r["runs"]
        tot["states"] |= r["states"]
        tot["transitions"] += r["transitions"]
        tot["nontrivial"] += r["nontrivial"]
        tot["outcomes"] |= r["outcomes"]
        tot["capped"] += 1 if r["capped"] else 0
        for v in r["violations"]:
            v["task"] = r["task"]
            tot["violations"].append(v)
        if r["samples"] and len(tot["samples"]) < 3:
            tot["samples"] += r["samples"][:1]
        tot["notes"] += r["notes"][:3]
    if pool:
        pool.close()
        pool.join()
    known = load_known(pid)
    hit, new = {}, []
    for v in tot["violations"]:
        for i, k in enumerate(known):
            if k.get("status") == "open" and v["task"] == k["task"] and v["sig"] == k["sig"]:
                hit.setdefault(i, v)
                break
        else:
            new.append(v)
    for i, v in sorted(hit.items()):
        print(f"KNOWN-FINDING: property={pid} {known[i]['what']}")
    for i, k in enumerate(known):
        if k.get("status") == "open" and i not in hit and not a.only:
            print(f"note: listed finding not reproduced: {k['what']}")
    if crashes:
        for c in crashes[:3]:
            print("HARNESS-ERROR", c["task"], c["crash"], file=sys.stderr)
    new.sort(key=lambda v: (len(json.dumps(v["replay"], default=str)), v["task"]))
    if new:
        os.makedirs(REPLAY, exist_ok=True)
        seen = set()
        for v in new:
            if v["sig"] in seen and not a.v:
                continue
            seen.add(v["sig"])
            body = {"property": pid, "task": next(t for t in tasks if t["name"] == v["task"]), "sig": v["sig"],
                    "msg": v["msg"], **v["replay"]}
            h = hashlib.md5(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(REPLAY, f"{pid}_{h}.json")
            with open(path, "w") as f:
                json.dump(body, f, indent=1, default=str)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  [{v['task']}] {v['sig']}: {v['msg']}")
            if len(seen) >= 12:
                break
    wall = time.time() - t0
    nstates = len(tot["states"])
    ev = {
        "property": pid, "tier": _tier if _tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": _mod.LEVEL,
        "coverage": {
            "states": nstates,
            "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["runs"],
            "evaluations": tot["runs"],
            "distinct_nontrivial": tot["nontrivial"] if isinstance(tot["nontrivial"], int) else 0,
            "distinct_outcomes": len(tot["outcomes"]),
            "rule": _mod.RULE,
            "scenarios": len(tasks),
            "scenarios_capped": tot["capped"],
            "exhaustive": tot["capped"] == 0 and not crashes,
            "samples": tot["samples"][:3],
            "known_findings_reproduced": len(hit),
        },
        "assumptions": getattr(_mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid} {_tier}: scenarios={len(tasks)} executions={tot['runs']} states={nstates} "
          f"transitions={tot['transitions']} outcomes={len(tot['outcomes'])} capped={tot['capped']} "
          f"violations={len(new)} known={len(hit)} wall={wall:.1f}s")
    if a.v:
        for w, n in sorted(perwall, reverse=True)[:8]:
            print(f"   {w:.1f}s {n}")
        for n in tot["notes"][:10]:
            print("   note", n)
    if new:
        return 1
    if crashes:
        return 3
    return 0
