"""P21: the optimiser's operators produce consistent configurations and touch only what they may."""
import copy
import json
from collections import Counter

from .. import build, opt
from ..harness import Result

LEVEL = "model_checking"
RULE = ("Explicit-state search: from each base system every outcome of a mutation (all operators, all answers of the random generator) up to the stated depth, "
        "every outcome of a crossover of every pair of reached configurations, and every random configuration up to the stated number of decisions. "
        "Each transition is compared with the configuration before it. Non-trivial: the configuration changed.")
ASSUMPTIONS = ["the limits leave room for at least one configuration (otherwise random configurations are searched for ever)",
               "compound processes do not overlap", "breakdown states follow the naming convention of the optimiser"]

DEPTH = {"quick": 2, "thorough": 3}
STATES = {"quick": 90, "thorough": 700}
PAIRS = {"quick": 8, "thorough": 26}


def tasks(tier):
    out = []
    for n, sp in opt.bases(tier).items():
        for k in ("mutate", "cross", "random"):
            out.append(dict(name=f"{k}/{n}", kind=k, base=n, spec=sp))
    return out


def ids(a, l):
    return [o.ID for o in getattr(a, l)]


def wellformed(a, b0):
    """The first inconsistency of a configuration that an operator produced."""
    for l in ("resource_data", "queue_data", "source_data", "sink_data", "process_data", "state_data"):
        c = [i for i, n in Counter(ids(a, l)).items() if n > 1]
        if c:
            return "duplicate-id", f"{c} occurs twice in {l}"
    if opt.frozen(a) != opt.frozen(b0):
        return "frozen", "a part that is no subject of the optimisation changed"
    procs, qs, sts = {p.ID: p for p in a.process_data}, {q.ID: q for q in a.queue_data}, {s.ID: s for s in a.state_data}
    gs = opt.groups(a)
    base_in = {}
    for r in a.resource_data:
        if len(set(r.process_ids)) != len(r.process_ids):
            return "duplicate-process", f"{r.process_ids}"
        if any(p not in procs for p in r.process_ids):
            return "unknown-process", f"{r.process_ids}"
        if len(r.process_capacities) != len(r.process_ids) or any(c != r.capacity for c in r.process_capacities):
            return "process-capacities", f"{r.process_ids} {r.process_capacities} capacity {r.capacity}"
        if any(s not in sts for s in r.state_ids):
            return "unknown-state", f"{r.state_ids}"
        if len(set(r.state_ids)) != len(r.state_ids):
            return "duplicate-state", f"{r.state_ids}"
        tr = opt.is_tr(r)
        for p in r.process_ids:
            if ("Transport" in type(procs[p]).__name__) != tr:
                return "kind", f"{type(r).__name__} offers {p}"
        if tr:
            if "BST" in sts and "BST" not in r.state_ids:
                return "breakdown-missing", "transport resource without BST"
            continue
        if not r.input_queues or not r.output_queues or any(q not in qs for q in r.input_queues + r.output_queues):
            return "queues", f"{r.input_queues} {r.output_queues}"
        for g in gs:
            n = sum(p in r.process_ids for p in g)
            if n not in (0, len(g)):
                return "split-module", f"{r.process_ids} offers a part of {g}"
        for s in a.state_data:
            t = type(s).__name__
            if t == "SetupStateData" and {s.origin_setup, s.target_setup} <= set(r.process_ids) and s.ID not in r.state_ids:
                return "setup-missing", f"{s.ID} on {r.process_ids}"
            if s.ID == "BSM" and s.ID not in r.state_ids:
                return "breakdown-missing", "machine without BSM"
            if s.ID.startswith("BSP_"):
                if (s.process_id in r.process_ids) != (s.ID in r.state_ids):
                    return "process-breakdown", f"{s.ID} and {r.process_ids}"
    for x in a.auxiliary_data or []:
        for st, n in zip(x.storages, x.quantity_in_storages):
            if n < 0 or (qs[st].capacity and n > qs[st].capacity):
                return "auxiliary-quantity", f"{n} in {st} of capacity {qs[st].capacity}"
    for q in a.queue_data:
        n = sum(m for x in a.auxiliary_data or [] for st, m in zip(x.storages, x.quantity_in_storages) if st == q.ID)
        if q.capacity and n > q.capacity:
            return "storage-overfilled", f"{n} auxiliaries in {q.ID} of capacity {q.capacity}"
    return None


def within(a, before, b0):
    """New positions, policies and heuristics come from the options."""
    o = b0.scenario_data.options
    old = [r for x in before for r in x.resource_data]
    for r in a.resource_data:
        if v(r.control_policy) not in [v(p) for p in (o.transport_controllers if opt.is_tr(r) else o.machine_controllers)] and not any(
                q.ID == r.ID and q.control_policy == r.control_policy for q in old):
            return "policy", f"{r.control_policy}"
        if not opt.is_tr(r) and opt.f(r.location) not in [opt.f(p) for p in o.positions] and not any(opt.f(q.location) == opt.f(r.location) and q.ID == r.ID for q in old):
            return "position", f"{r.location}"
    for i, s in enumerate(a.source_data):
        if s.routing_heuristic not in o.routing_heuristics and not any(x.source_data[i].routing_heuristic == s.routing_heuristic for x in before):
            return "heuristic", f"{s.routing_heuristic}"
    return None


def v(x):
    return getattr(x, "value", x)


def facets(a):
    """What each kind of transformation may change, separately."""
    ms, ts = [r for r in a.resource_data if not opt.is_tr(r)], [r for r in a.resource_data if opt.is_tr(r)]
    return {
        "machines": sorted((r.ID, tuple(sorted(r.process_ids)), r.capacity) for r in ms),
        "machine-policies": sorted((r.ID, v(r.control_policy)) for r in ms),
        "layout": sorted((r.ID, opt.f(r.location), opt.f(r.input_location), opt.f(r.output_location)) for r in ms),
        "transports": sorted((r.ID, tuple(sorted(r.process_ids)), opt.f(r.location)) for r in ts),
        "transport-policies": sorted((r.ID, v(r.control_policy)) for r in ts),
        "routing": [v(s.routing_heuristic) for s in a.source_data],
        "auxiliaries": [list(x.quantity_in_storages) for x in a.auxiliary_data or []],
    }


MAY = {"production_capacity": {"machines", "machine-policies", "layout", "transport-policies"},
       "transport_capacity": {"transports", "transport-policies"},
       "layout": {"layout"}, "sequencing_logic": {"machine-policies", "transport-policies"},
       "routing_logic": {"routing"}, "auxiliary_capacity": {"auxiliaries"}}


def allowed(a):
    return set().union(*(MAY[v(t)] for t in a.scenario_data.options.transformations))


def changed(a, b):
    x, y = facets(a), facets(b)
    return {k for k in x if x[k] != y[k]}


def step_size(a, b):
    """How many machines, transports, sources and auxiliaries differ."""
    n = {}
    for lab, pick in (("machines", lambda r: not opt.is_tr(r)), ("transports", opt.is_tr)):
        x, y = ({r.ID: (sorted(r.process_ids), r.control_policy, r.location) for r in c.resource_data if pick(r)} for c in (a, b))
        n[lab] = sum(x.get(i) != y.get(i) for i in set(x) | set(y))
    n["sources"] = sum(s.routing_heuristic != t.routing_heuristic for s, t in zip(a.source_data, b.source_data))
    n["units"] = sum(abs(p - q) for s, t in zip(a.auxiliary_data or [], b.auxiliary_data or []) for p, q in zip(s.quantity_in_storages, t.quantity_in_storages))
    return n


def relation(before, a):
    """A machine keeps its exchange places relative to its position."""
    old = {r.ID: r for r in before.resource_data if not opt.is_tr(r)}
    for r in a.resource_data:
        if opt.is_tr(r) or r.ID not in old:
            continue
        o = old[r.ID]
        for k in ("input_location", "output_location"):
            for i in (0, 1):
                if abs((getattr(r, k)[i] - r.location[i]) - (getattr(o, k)[i] - o.location[i])) > 1e-9:
                    return f"{k} of {r.ID}: {getattr(o, k)} around {o.location}, then {getattr(r, k)} around {r.location}"
    return None


def search(spec, tier, res=None, depth=None, limit=None):
    """Breadth-first search over the mutations; yields (state, path) and records violations of transitions."""
    from prodsys.optimization.adapter_manipulation import mutation
    b0 = build.build(spec)
    seen = {opt.canon(b0): None}
    frontier = [(b0, ())]
    yield b0, ()
    depth = depth or DEPTH[tier]
    limit = limit or STATES[tier]
    for d in range(depth):
        nxt = []
        for a, path in frontier:
            def fn():
                c = a.model_copy(deep=True)
                r = mutation([c])
                return r[0][0]
            for ch, (st, c) in opt.outcomes(fn):
                p = path + (tuple(ch.choices),)
                if res is not None:
                    res["runs"] += 1
                    res["transitions"] += 1
                    if st == "raises":
                        res.violate("mutation-raises", f"{type(c).__name__}: {c} after {ch.labels}", path=p)
                        continue
                    transition(res, a, c, b0, p)
                elif st != "ok":
                    continue
                k = opt.canon(c)
                if k not in seen:
                    if len(seen) >= limit:
                        if res is not None:
                            res["capped"] = 1
                        continue
                    seen[k] = None
                    yield c, p
                    nxt.append((c, p))
        frontier = nxt


def transition(res, a, c, b0, p):
    w = wellformed(c, b0)
    if w:
        res.violate("mutation/" + w[0], w[1], path=p)
    w = within(c, [a], b0)
    if w:
        res.violate("mutation/option-" + w[0], w[1], path=p)
    ch = changed(a, c)
    if ch - allowed(b0):
        res.violate("mutation/scope", f"{sorted(ch - allowed(b0))} changed under {b0.scenario_data.options.transformations}", path=p)
    n = step_size(a, c)
    if n["machines"] > 2 or n["transports"] > 1 or n["sources"] > 1 or n["units"] > 1 or sum(x > 0 for x in n.values()) > 1:
        res.violate("mutation/step", f"{n} differ after one mutation", path=p)
    if c.ID == a.ID and ch:
        res.violate("mutation/same-name", f"the configuration keeps its ID although {sorted(ch)} changed", path=p)
    pa, pc = ([opt.f(r.location) for r in z.resource_data if not opt.is_tr(r)] for z in (a, c))
    if len(set(pa)) == len(pa) and len(set(pc)) < len(pc):
        res.violate("mutation/occupied", f"two machines at one position: {pc}", path=p)
    x = relation(a, c)
    if x:
        res.violate("mutation/exchange-places", x, path=p)
    if ch:
        res["nontrivial"] += 1
    res["outcomes"].add(hash(tuple(sorted(ch))))


def parts(a):
    """identities of the mutable objects of a configuration"""
    out = {}
    for l in ("resource_data", "queue_data", "source_data", "sink_data", "auxiliary_data"):
        for o in getattr(a, l) or []:
            out[id(o)] = o.ID
            for k, x in o.__dict__.items():
                if isinstance(x, list):
                    out[id(x)] = f"{o.ID}.{k}"
    return out


def cross(res, task, tier):
    from prodsys.optimization.adapter_manipulation import crossover
    b0 = build.build(task["spec"])
    sts = []
    every = list(search(task["spec"], tier, depth=2 if tier == "thorough" else 1, limit=60))
    n = PAIRS[tier]
    # one mutation and, for a few of them, removals and additions of machines (uneven numbers)
    every.sort(key=lambda t: (len(t[1]),))
    by = {}
    for c, p in every:
        ms = [r for r in c.resource_data if not opt.is_tr(r)]
        by.setdefault((len(ms), len(c.resource_data) - len(ms)), []).append((c, p))
    while len(sts) < n and any(by.values()):
        for k in sorted(by):
            if by[k] and len(sts) < n:
                sts.append(by[k].pop(0))
    for (a, p), (b, q) in ((x, y) for x in sts for y in sts):
        def fn():
            x, y = [a.model_copy(deep=True)], [b.model_copy(deep=True)]
            r = crossover(x, y)
            return r
        for ch, (st, r) in opt.outcomes(fn):
            res["runs"] += 1
            res["transitions"] += 1
            path = (p, q, tuple(ch.choices))
            if st == "raises":
                res.violate("crossover-raises", f"{type(r).__name__}: {r} after {ch.labels}", path=path)
                continue
            x, y = r[0][0], r[1][0]
            for c in (x, y):
                w = wellformed(c, b0)
                if w:
                    res.violate("crossover/" + w[0], w[1], path=path)
                w = within(c, [a, b], b0)
                if w:
                    res.violate("crossover/option-" + w[0], w[1], path=path)
                res["states"].add(hash(opt.canon(c)))
            sh = set(parts(x)) & set(parts(y))
            if sh:
                res.violate("crossover/shared", f"{[parts(x)[i] for i in sh][:4]} belongs to both children", path=path)
            if x.ID == y.ID or x.ID in (a.ID, b.ID) or y.ID in (a.ID, b.ID):
                res.violate("crossover/same-name", "the children have no IDs of their own", path=path)

            def bag(*cs):
                return Counter(key(c, o) for c in cs for o in c.resource_data)
            if bag(a, b) != bag(x, y):
                res.violate("crossover/lost", f"resources before and after differ: {[k[:3] for k in (bag(a, b) - bag(x, y))]} lost, "
                            f"{[k[:3] for k in (bag(x, y) - bag(a, b))]} new", path=path)
            if changed(a, x) or changed(b, y):
                res["nontrivial"] += 1
            if [s.routing_heuristic for s in x.source_data] != [s.routing_heuristic for s in a.source_data] or \
                    [s.routing_heuristic for s in y.source_data] != [s.routing_heuristic for s in b.source_data]:
                res.violate("crossover/routing", "routing heuristics change", path=path)


def key(c, r):
    k = (type(r).__name__, opt.f(r.location), tuple(sorted(r.process_ids)), r.capacity, v(r.control_policy), v(r.controller))
    return k if opt.is_tr(r) else k + (opt.f(r.input_location), opt.f(r.output_location))


def randoms(res, task, tier):
    from prodsys.optimization.adapter_manipulation import random_configuration
    b0 = build.build(task["spec"])
    before = opt.everything(b0)
    cap = 300 if tier == "quick" else 6000
    for ch, (st, c) in opt.outcomes(lambda: random_configuration(b0), bound=3 if tier == "quick" else 5, cap=cap, budget=40):
        res["runs"] += 1
        res["transitions"] += len(ch.choices)
        path = tuple(ch.choices)
        if st == "raises":
            res.violate("random-raises", f"{type(c).__name__}: {c} after {ch.labels[-3:]}", path=path)
            continue
        if opt.everything(b0) != before:
            res.violate("random/base-changed", "the baseline changed", path=path)
            b0 = build.build(task["spec"])
        if st != "ok":
            continue
        w = wellformed(c, b0)
        if w:
            res.violate("random/" + w[0], w[1], path=path)
        w = opt.acceptable(c, b0)
        if w:
            res.violate("random/not-acceptable", w, path=path)
        w = within(c, [b0], b0)
        if w:
            res.violate("random/option-" + w[0], w[1], path=path)
        d = changed(b0, c)
        if d - allowed(b0):
            res.violate("random/scope", f"{sorted(d - allowed(b0))} changed under {b0.scenario_data.options.transformations}", path=path)
        if set(parts(b0)) & set(parts(c)):
            res.violate("random/shared", "objects shared with the baseline", path=path)
        if c.ID == b0.ID:
            res.violate("random/same-name", "the ID of the baseline", path=path)
        res["states"].add(hash(opt.canon(c)))
        res["nontrivial"] += bool(d)


def run_task(task, tier):
    res = Result()
    with opt.unlocked():
        if task["kind"] == "mutate":
            for c, p in search(task["spec"], tier, res):
                res["states"].add(hash(opt.canon(c)))
        elif task["kind"] == "cross":
            cross(res, task, tier)
        else:
            randoms(res, task, tier)
    res["samples"].append({"base": task["base"], "kind": task["kind"], "states": len(res["states"]), "transitions": res["transitions"]})
    return res
