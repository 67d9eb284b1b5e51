"""Bounded search spaces of the optimiser: base systems with scenario data, canonical forms, oracles.

The random decisions of the operators are owned by `explore.Chooser`, so that every outcome of an
operator on a given configuration is enumerated, not sampled."""
import contextlib
import copy
import json

from . import build

ALL = ["production_capacity", "transport_capacity", "layout", "sequencing_logic", "routing_logic"]


def scen(transformations=ALL, machines=3, modules=2, transports=2, cost=1e9, positions=((5, 0), (5, 4), (5, 8)), mp=("FIFO", "SPT"),
         tp=("FIFO", "SPT_transport"), heur=("FIFO", "shortest_queue"), module_cost=3.0, aux_cost=7.0, time_range=20,
         objectives=(("throughput", 1.0), ("cost", 0.5), ("WIP", 0.25), ("throughput_time", 2.0))):
    return dict(constraints=dict(max_reconfiguration_cost=cost, max_num_machines=machines, max_num_processes_per_machine=modules,
                                 max_num_transport_resources=transports, target_product_count=None),
                options=dict(transformations=list(transformations), machine_controllers=list(mp), transport_controllers=list(tp),
                             routing_heuristics=list(heur), positions=[list(map(float, p)) for p in positions]),
                info=dict(machine_cost=100.0, transport_resource_cost=40.0, process_module_cost=module_cost, auxiliary_cost=aux_cost, time_range=time_range),
                objectives=[dict(name=n, weight=w) for n, w in objectives])


def base(machines=("R1", "R2"), plan=("P1", "P2"), offers=None, **sc):
    s = build.line(n_prod=4, gap=3, proc=2, machines=machines, plan=plan)
    for m, o in (offers or {}).items():
        s["res"][m]["procs"], s["res"][m]["caps"] = list(o), [1] * len(o)
    s["scenario"] = scen(**sc)
    s["ID"] = "BASE"
    return s


def setups(s, procs):
    s["tm"]["su"] = 1
    for a in procs:
        for b in procs:
            if a != b:
                s["states"][f"SU_{a}_{b}"] = {"kind": "S", "t": "su", "from": a, "to": b}
                for r in s["res"].values():
                    if not r.get("transport") and a in r["procs"] and b in r["procs"]:
                        r.setdefault("states", []).append(f"SU_{a}_{b}")
    return s


def breakdowns(s, kinds):
    s["tm"].update(bd={"seq": [6, 60]}, rp=2)
    for k in kinds:
        if k in ("BSM", "BST"):
            s["states"][k] = {"kind": "B", "t": "bd", "rep": "rp"}
            for r in s["res"].values():
                if bool(r.get("transport")) == (k == "BST"):
                    r.setdefault("states", []).append(k)
        else:
            s["states"][k] = {"kind": "PB", "t": "bd", "rep": "rp", "proc": k[4:]}
            for r in s["res"].values():
                if k[4:] in r["procs"]:
                    r.setdefault("states", []).append(k)
    return s


def auxiliary(s, caps=(2, 0), qty=(1, 0)):
    s["procs"]["AT"] = {"kind": "T", "t": "tt"}
    s["res"]["T1"]["procs"].append("AT")
    s["res"]["T1"]["caps"].append(1)
    for i, c in enumerate(caps):
        s["stores"][f"AS{i}"] = {"loc": [20 + 2 * i, 20], "cap": c}
    s["aux"]["AX"] = {"tp": "AT", "stores": [f"AS{i}" for i in range(len(caps))], "qty": list(qty), "relt": ["TP"]}
    s["prods"]["A"]["aux"] = ["AX"]
    return s


def bases(tier):
    th = tier == "thorough"
    out = {}
    out["plain"] = base()
    out["tight"] = base(offers={"R1": ["P1"], "R2": ["P2"]}, machines=("R1", "R2"), cost=110.0)
    out["tight"]["scenario"]["constraints"].update(max_num_machines=2, max_num_processes_per_machine=1, max_num_transport_resources=1)
    out["one"] = base(machines=("R1",), plan=("P1",))
    for t in ALL:
        out["only/" + t] = base(transformations=[t])
    out["setup"] = setups(base(), ["P1", "P2"])
    out["setup/split"] = setups(base(offers={"R1": ["P1"], "R2": ["P2"]}), ["P1", "P2"])
    out["store-place"] = auxiliary(base(transformations=["layout", "production_capacity"], plan=("P1",)))
    out["store-place"]["stores"]["AS0"]["loc"] = [5, 8]
    out["breakdown"] = breakdowns(base(offers={"R1": ["P1"]}), ["BSM", "BST", "BSP_P1", "BSP_P2"])
    out["breakdown/process"] = breakdowns(base(), ["BSP_P1"])
    out["setup+breakdown"] = breakdowns(setups(base(), ["P1", "P2"]), ["BSM", "BST"])
    c = base(plan=("P1", "P2", "P3"), modules=2)
    c["procs"]["C1"] = {"kind": "CP", "ids": ["P1", "P2"]}
    c["procs"]["C2"] = {"kind": "CP", "ids": ["P3"]}
    out["compound"] = c
    out["aux"] = auxiliary(base(transformations=["auxiliary_capacity"], machines=("R1",), plan=("P1",)))
    out["aux/2"] = auxiliary(base(transformations=["auxiliary_capacity", "layout"], machines=("R1",), plan=("P1",), cost=20.0), caps=(2, 1), qty=(1, 1))
    for k, c, q in (("shared", (4,), (1, 1)), ("shared/2", (3, 2), (1, 0, 0, 1)), ("shared/tight", (2,), (1, 1))):
        x = auxiliary(base(transformations=["auxiliary_capacity"], machines=("R1",), plan=("P1",)), caps=c, qty=q[:len(c)])
        x["prods"]["B"] = {"procs": ["P1"], "tp": "TP", "aux": ["AY"]}
        x["tm"]["arrB"] = {"sched": [2, 9], "abs": True}
        x["queues"].update(srcB=0, snkB=0)
        x["sources"]["SRCB"] = {"loc": [0, 6], "type": "B", "t": "arrB", "heur": "FIFO", "out": "srcB"}
        x["sinks"]["SNKB"] = {"loc": [11, 6], "type": "B", "in": "snkB"}
        x["aux"]["AY"] = dict(x["aux"]["AX"], qty=list(q[len(c):]))
        if k == "shared/2":
            x["aux"]["AZ"] = dict(x["aux"]["AX"], qty=[1, 1])
        out["aux/" + k] = x
    out["noaux"] = base(transformations=["auxiliary_capacity", "layout"], machines=("R1",), plan=("P1",))
    p = base()
    p["res"]["R1"]["pol"] = "LIFO"
    p["scenario"]["options"].update(transport_controllers=["SPT_transport"], machine_controllers=["FIFO", "SPT"])
    p["sources"]["SRC"]["heur"] = "random"
    out["other-policies"] = p
    q = base(transformations=["layout", "transport_capacity"])
    q["res"]["R1"].update(in_loc=[4, 0], out_loc=[6, 0])
    out["exchange-places"] = q
    b = base(transformations=["production_capacity"], machines=("R1",))
    b["prods"]["B"] = {"procs": ["P2"], "tp": "TP"}
    b["tm"]["arrB"] = {"sched": [2, 9], "abs": True}
    b["queues"].update(srcB=0, snkB=0)
    b["sources"]["SRCB"] = {"loc": [0, 6], "type": "B", "t": "arrB", "heur": "FIFO", "out": "srcB"}
    b["sinks"]["SNKB"] = {"loc": [11, 6], "type": "B", "in": "snkB"}
    out["types"] = b
    out["dict-cost"] = base(module_cost={"P1": 2.0}, transformations=["production_capacity", "transport_capacity"], cost=105.0)
    out["no-cost"] = base(module_cost=None, transformations=["production_capacity"])
    out["capacity2"] = base(transformations=["production_capacity", "sequencing_logic"])
    for r in ("R1", "R2"):
        out["capacity2"]["res"][r].update(cap=2, caps=[2, 2])
    if th:
        out["three"] = base(plan=("P1", "P2", "P3"), modules=3)
    return out


# ------------------------------------------------------------------ canonical forms
def f(x):
    return tuple(float(v) for v in x) if x is not None else None


def v(x):
    return getattr(x, "value", x)


def is_tr(r):
    return not hasattr(r, "input_queues")


def res_key(a, r):
    caps = {q.ID: q.capacity for q in a.queue_data}
    pc = sorted(zip(r.process_ids, r.process_capacities)) if len(r.process_ids) == len(r.process_capacities) else ("bad", tuple(r.process_ids), tuple(r.process_capacities))
    k = (type(r).__name__, f(r.location), v(r.controller), v(r.control_policy), r.capacity, tuple(pc), tuple(sorted(r.state_ids)))
    if not is_tr(r):
        k += (f(r.input_location), f(r.output_location), tuple(sorted(str(caps.get(q)) for q in r.input_queues)),
              tuple(sorted(str(caps.get(q)) for q in r.output_queues)))
    return k


def canon(a):
    return (tuple(sorted(map(repr, (res_key(a, r) for r in a.resource_data)))),
            tuple(v(s.routing_heuristic) for s in a.source_data),
            tuple(tuple(x.quantity_in_storages) for x in a.auxiliary_data or []))


def frozen(a):
    """The parts that no operator may touch."""
    out = {}
    for l in ("time_model_data", "process_data", "state_data", "node_data", "product_data", "sink_data"):
        out[l] = [o.model_dump() for o in getattr(a, l)]
    out["source_data"] = [{k: x for k, x in o.model_dump().items() if k != "routing_heuristic"} for o in a.source_data]
    out["auxiliary_data"] = [{k: x for k, x in o.model_dump().items() if k != "quantity_in_storages"} for o in a.auxiliary_data or []]
    res_q = {q for r in a.resource_data if not is_tr(r) for q in r.input_queues + r.output_queues}
    kept = {q for s in a.source_data for q in s.output_queues} | {q for s in a.sink_data for q in s.input_queues} | {
        q for x in a.auxiliary_data or [] for q in x.storages}
    out["queue_data"] = sorted((json.dumps(q.model_dump(), sort_keys=True, default=str) for q in a.queue_data if q.ID in kept and q.ID not in res_q))
    out["scenario_data"] = a.scenario_data.model_dump()
    return json.dumps(out, sort_keys=True, default=str)


def everything(a):
    return json.dumps(a.model_dump(), sort_keys=True, default=str)


def groups(a):
    comp = [p for p in a.process_data if type(p).__name__ == "CompoundProcessData"]
    inside = {i for c in comp for i in c.process_ids}
    single = [(p.ID,) for p in a.process_data if type(p).__name__ in ("ProductionProcessData", "CapabilityProcessData", "ReworkProcessData")
              and p.ID not in inside]
    return single + [tuple(c.process_ids) for c in comp]


# ------------------------------------------------------------------ oracles
def modules(a, r, gs=None):
    return [g for g in (gs or groups(a)) if any(p in g for p in r.process_ids)]


def cost(a, b):
    i = a.scenario_data.info
    ma, mb = ([r for r in x.resource_data if not is_tr(r)] for x in (a, b))
    ta, tb = ([r for r in x.resource_data if is_tr(r)] for x in (a, b))
    c = max(0, len(ma) - len(mb)) * i.machine_cost + max(0, len(ta) - len(tb)) * i.transport_resource_cost
    for g in groups(a):
        n, m = (sum(any(p in g for p in r.process_ids) for r in x) for x in (ma, mb))
        pc = i.process_module_cost
        pc = (pc.get(g[0], 0) if isinstance(pc, dict) else pc) or 0
        c += max(0, n - m) * pc
    for x, y in zip(a.auxiliary_data or [], b.auxiliary_data or []):
        c += sum(max(0, p - q) for p, q in zip(x.quantity_in_storages, y.quantity_in_storages)) * (i.auxiliary_cost or 0)
    return c


def places(o):
    return {f(o.location)} | {f(getattr(o, k)) for k in ("input_location", "output_location") if getattr(o, k, None)}


def acceptable(a, b):
    """None if the configuration respects the limits of the scenario, else the reason."""
    sc = a.scenario_data
    k, o = sc.constraints, sc.options
    ms = [r for r in a.resource_data if not is_tr(r)]
    ts = [r for r in a.resource_data if is_tr(r)]
    if len(ms) > k.max_num_machines:
        return "too many machines"
    if not 1 <= len(ts) <= k.max_num_transport_resources:
        return "number of transport resources"
    if any(len(modules(a, r)) > k.max_num_processes_per_machine for r in ms):
        return "too many process modules"
    off = {p for r in a.resource_data for p in r.process_ids}
    comp = {p.ID: p.process_ids for p in a.process_data if type(p).__name__ == "CompoundProcessData"}
    for p in a.product_data:
        need = [p.transport_process]
        for q in (p.processes if isinstance(p.processes, list) else []):
            need += comp.get(q, [q])
        if any(q not in off for q in need):
            return "process not available"
    used = {x for p in a.product_data for x in p.auxiliaries or []}
    if any((x.ID in used or x.auxiliary_type in used) and sum(x.quantity_in_storages) < 1 for x in a.auxiliary_data or []):
        return "auxiliary not available"
    stores = [q for q in a.queue_data if hasattr(q, "location")]
    objs = ms + list(a.source_data) + list(a.sink_data) + stores
    seen = {}
    for x in objs:
        for pl in places(x):
            if pl in seen and not (type(seen[pl]) is type(x) and x in list(a.source_data) + list(a.sink_data)):
                return "places"
            seen[pl] = x
    if any(list(f(r.location)) not in [list(map(float, q)) for q in o.positions] for r in ms):
        return "position"
    if cost(a, b) > k.max_reconfiguration_cost:
        return "cost"
    return None


class Budget(Exception):
    """An operator made more decisions than the bound allows."""


@contextlib.contextmanager
def unlocked():
    """The optimisers switch the assignment validation of the adapter off."""
    from prodsys import adapters
    cfg = adapters.ProductionSystemAdapter.model_config
    old = cfg.get("validate_assignment")
    cfg["validate_assignment"] = False
    try:
        yield
    finally:
        cfg["validate_assignment"] = old


def outcomes(fn, bound=99, cap=100000, budget=None):
    """Every outcome of `fn()` over all answers of the random generators."""
    from .explore import explore, own_rng, Chooser

    def run(ch):
        if budget:
            orig = ch.choose

            def choose(n, label):
                if len(ch.choices) >= budget:
                    raise Budget()
                return orig(n, label)
            ch.choose = choose
        with own_rng(ch):
            try:
                return "ok", fn()
            except Budget:
                return "budget", None
            except Exception as e:
                return "raises", e
    yield from explore(run, bound, cap)
