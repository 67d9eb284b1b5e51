"""P03: rework."""
from .. import monitors as M
from .. import simrun, suites
from ..explore import distribution
from ..harness import Result
from ..simmod import module

module(globals(), [M.no_error, M.rework, M.process_plan], ["rework"],
       need=lambda tr: any(M.is_rework(tr.spec, e.s) for e in M.by(tr, "Production")),
       rule="Non-trivial: a rework process was executed. For single products the exact probability of every history over all random answers is "
            "added up and compared with the failure rates.",
       extra=["failed steps are told apart by the weighted yes/no draws of the run (where the draws fit the steps)"])
_tasks, _run, _replay = tasks, run_task, replay  # noqa: F821


def tasks(tier):
    out = _tasks(tier)
    for rate in (0.0, 0.1, 0.25, 0.5, 0.9, 1.0):
        for where, blocking in (("one", True), ("one", False), ("batch", True), ("cap", True), ("two", False)):
            procs = {"P1": {"t": "tp_P1", "fail": rate}, "P2": {"t": "tp_P2", "fail": 0.3 if where == "two" else 0.0},
                     "RW": {"kind": "RW", "t": "tp_RW", "of": ["P1"], "blocking": blocking}, "RV": {"kind": "RW", "t": "tp_RV", "of": ["P2"], "blocking": blocking}}
            if where == "cap":
                procs["P1"] = {"kind": "C", "t": "tp_P1", "cap": "x", "fail": rate}
                procs["RQ"] = {"kind": "RC", "cap": "x"}
            n = 2 if where == "batch" else 1
            sp = suites.line(n_prod=n, gap=0.5, machines=("R1", "R2"), plan=("RQ" if where == "cap" else "P1", "P2"), procs=procs,
                             proc={"P1": 2, "P2": 1, "RW": 1, "RV": 1, "RQ": 1})
            sp["res"]["R1"].update(procs=["P1"], caps=[n], cap=n, **({"batch": 2, "ctrl": "BatchController"} if where == "batch" else {}))
            sp["res"]["R2"].update(procs=["P2", "RW", "RV"], caps=[1, 1, 1])
            out.append(dict(name=f"probability/{where}/{'b' if blocking else 'nb'}/{rate}", kind="prob", spec=sp, rates=[rate, procs["P2"]["fail"]], n=n, horizon=60))
    return out


def run_task(task, tier):
    if task.get("kind") != "prob":
        return _run(task, tier)
    res = Result()
    n, rates = task["n"], task["rates"]

    def once(ch):
        tr = simrun.run(task["spec"], ch, horizon=task["horizon"])
        res["runs"] += 1
        res["transitions"] += tr.steps
        res["states"] |= {hash((task["name"], h)) for h in tr.hashes}
        for sig, msg in M.no_error(tr):
            res.violate(sig, msg, choices=ch.choices)
        done = [tuple(e.s for e in sorted(M.by(tr, "Production"), key=lambda e: e.i0) if e.p == p and M.is_rework(task["spec"], e.s)) for p in sorted({e.p for e in M.by(tr, "Production")})]
        return tuple(done)

    got = distribution(once)
    if got is None:
        return res  # the draws of this implementation have no finite menus
    want = {}
    for k in range(4 ** n):
        key, p = [], 1.0
        for i in range(n):
            a, b = k >> (2 * i) & 1, k >> (2 * i + 1) & 1
            key.append((a, b))
            p *= (rates[0] if a else 1 - rates[0]) * (rates[1] if b else 1 - rates[1])
        key = tuple(tuple(sorted(("RW",) * a + ("RV",) * b)) for a, b in key)
        if p > 0:
            want[key] = want.get(key, 0) + p
    g = {}
    for k, p in got.items():
        key = tuple(tuple(sorted(x)) for x in k)
        g[key] = g.get(key, 0) + p
    res["nontrivial"] += 1
    res["outcomes"] |= {hash((task["name"], k)) for k in g}
    if not res["samples"]:
        res["samples"].append({"scenario": task["name"], "distribution": str(g)})
    if set(g) != set(want) or any(abs(g[k] - want[k]) > 1e-9 for k in want):
        res.violate("failure-probability", f"{task['name']}: reworks {g}, expected {want}")
    return res


def replay(rep):
    return _replay(rep) if rep["task"].get("kind") != "prob" else run_task(rep["task"], "quick")
