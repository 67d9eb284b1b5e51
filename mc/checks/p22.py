"""P22: the optimiser accepts exactly the configurations within the limits of the scenario, and prices them correctly."""
import copy

from .. import build, opt, simrun
from ..explore import Chooser
from ..harness import Result
from .p21 import search

LEVEL = "model_checking"
RULE = ("Every configuration that the mutations reach from each base system up to the stated depth, each under its own limits and with every limit moved to the value that "
        "the configuration just reaches and just misses; the decision and the recorded cost are compared with a reference, in both orders of baseline and configuration. Every accepted "
        "configuration is initialised and simulated. Non-trivial: a limit is exactly reached or just missed.")
ASSUMPTIONS = ["compound processes do not overlap", "process plans are lists (the reference of available processes)"]


def tasks(tier):
    return [dict(name=n, spec=sp) for n, sp in opt.bases(tier).items() if not n.startswith("only/")]


def limits(c, b0):
    """(name, change of the scenario data) at and just below the values of the configuration"""
    ms = [r for r in c.resource_data if not opt.is_tr(r)]
    nt = len(c.resource_data) - len(ms)
    mm = max([len(opt.modules(c, r)) for r in ms] or [0])
    k = opt.cost(c, b0)
    wide = dict(max_num_machines=99, max_num_transport_resources=99, max_num_processes_per_machine=99, max_reconfiguration_cost=1e12)
    yield "own", {}, None
    yield "wide", wide, None
    for f, x in (("max_num_machines", len(ms)), ("max_num_transport_resources", nt), ("max_num_processes_per_machine", mm),
                 ("max_reconfiguration_cost", k)):
        yield f"{f}={x}", dict(wide, **{f: x}), None
        yield f"{f} below {x}", dict(wide, **{f: x - 1 if f != "max_reconfiguration_cost" else x - 0.5}), None
    pos = sorted({opt.f(r.location) for r in ms})
    for i, p in enumerate(pos):
        yield f"position {p} closed", wide, [list(q) for q in pos if q != p]
    yield "positions of the machines only", wide, [list(q) for q in pos]


def decide(res, c, b0, lab, path):
    from prodsys.optimization.optimization import check_valid_configuration
    want = opt.acceptable(c, b0)
    c.reconfiguration_cost = -1
    before = opt.canon(c)
    res["runs"] += 1
    res["transitions"] += 1
    try:
        got = check_valid_configuration(c, b0)
    except Exception as e:
        res.violate("raises", f"{lab}: {type(e).__name__}: {e}", path=path)
        return False
    if bool(got) != (want is None):
        res.violate("decision/" + (want or "accept"), f"{lab}: accepted={got}, reference: {want or 'acceptable'}", path=path)
    if got and abs(c.reconfiguration_cost - opt.cost(c, b0)) > 1e-9:
        res.violate("cost", f"{lab}: recorded cost {c.reconfiguration_cost}, reference {opt.cost(c, b0)}", path=path)
    if opt.canon(c) != before:
        res.violate("changes", f"{lab}: the decision changes the configuration", path=path)
    res["outcomes"].add((bool(got), want))
    return bool(got)


def run_task(task, tier):
    from prodsys.optimization.optimization import get_reconfiguration_cost
    res = Result()
    with opt.unlocked():
        b0 = build.build(task["spec"])
        for n, (c, p) in enumerate(search(task["spec"], tier)):
            res["states"].add(hash(opt.canon(c)))
            ok = False
            sc = c.scenario_data
            for lab, lim, pos in limits(c, b0):
                c.scenario_data = sc.model_copy(deep=True)
                for k, x in lim.items():
                    setattr(c.scenario_data.constraints, k, x)
                if pos is not None:
                    c.scenario_data.options.positions = pos
                r = decide(res, c, b0, lab, p)
                ok = ok or r
                res["nontrivial"] += lab not in ("own", "wide")
            c.scenario_data = sc
            for x, y, lab in ((c, b0, "cost"), (b0, c, "cost of the way back")):
                k = get_reconfiguration_cost(x, y)
                if abs(k - opt.cost(x, y)) > 1e-9:
                    res.violate("price", f"{lab}: {k}, reference {opt.cost(x, y)}", path=p)
            if ok:
                tr = simrun.run(task["spec"], Chooser([]), horizon=20, adapter=c.model_copy(deep=True), observe=False)
                if tr.error:
                    res.violate("accepted-fails", f"an accepted configuration cannot be simulated: {tr.error[:2]}", path=p)
                res["transitions"] += len(tr.log)
    res["samples"].append({"base": task["name"], "states": len(res["states"]), "decisions": res["runs"]})
    return res
