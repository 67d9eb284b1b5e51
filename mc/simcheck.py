"""Common driver of the checks that explore the simulator itself."""
import hashlib
import json
import time

from . import build, simrun
from .explore import explore, Divergence
from .harness import Result

DEADLINE = {"quick": 150.0, "thorough": 1500.0}


def run_sim_task(task, tier, monitors, need=None, horizon=None):
    """Explores task['spec'] with at most task['bound'] deviations; applies `monitors`.

    A monitor maps a trace to a list of (signature, message)."""
    res = Result()
    t0 = time.time()
    spec = task["spec"]
    tag = hash(build.key(spec))
    gen = explore(lambda c: simrun.run(spec, c, horizon=task.get("horizon", horizon or 60)),
                  task.get("bound", 1), task.get("cap", 400),
                  stop=lambda: time.time() - t0 > DEADLINE[tier])
    try:
        for ch, tr in gen:
            res["runs"] += 1
            res["transitions"] += tr.steps
            res["states"] |= {hash((tag, h)) for h in tr.hashes}
            fp = simrun.fingerprint(tr)
            res["outcomes"].add(hash((tag, fp)))
            if not res["samples"]:
                res["samples"].append({"scenario": task["name"], "choices": list(ch.choices),
                                       "events": len(tr.log), "tail": tr.log[-2:]})
            for mon in monitors:
                for sig, msg in mon(tr):
                    res.violate(sig, msg, choices=list(ch.choices), labels=ch.labels[:len(ch.choices)])
            # after the monitors, which count what they had to decide
            if need is None or need(tr):
                res["nontrivial"] += 1
            if len(res["violations"]) >= 6:
                break
    except Divergence as e:
        res.violate("nondeterministic-replay", f"same seed and answers, different run: {e}", choices=[])
    res["capped"] = int(explore.capped)
    return res


def replay_sim(rep, monitors):
    from .explore import Chooser
    res = Result()
    tr = simrun.run(rep["task"]["spec"], Chooser(rep.get("choices", [])), horizon=rep["task"].get("horizon", 60))
    for e in tr.log:
        print({k: v for k, v in e.items() if v not in (None, "")})
    if tr.error:
        print(tr.error[0], tr.error[1], tr.error[2])
    for mon in monitors:
        for sig, msg in mon(tr):
            res.violate(sig, msg)
    return res
