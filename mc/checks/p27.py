"""P27: the queue helpers give every object the queues it needs and touch nothing else.

Explored: every sequence of helper calls and edits of queue references up to a depth, from
several base systems; each step is compared with a reference."""
import copy
import itertools

from .. import boot, build, simrun, suites
from ..build import line
from ..harness import Result

LEVEL = "model_checking"
RULE = ("Breadth-first search over sequences of the queue helpers (for machines, sources, sinks, the whole system, two capacities, removal of unused queues) and of edits that remove, share or add queues, from every base system to "
        "the stated depth, states merged when the configurations are equal; after every helper the configuration is compared with the reference, and complete configurations are validated and simulated. "
        "Non-trivial: a helper meets queues that were edited before.")
ASSUMPTIONS = ["machines of the base systems use no stores as own queues"]


def bases():
    out = {"line": line(n_prod=2, gap=2, proc=2, tr=1, machines=("R1", "R2"), plan=("P1",)),
           "two": suites.two_types("FIFO", "FIFO", n=2)}
    for t in suites.auxiliaries("quick"):
        out["auxiliary"] = t["spec"]
        break
    s = copy.deepcopy(out["line"])
    s["queues"]["shared"] = 3
    for r in ("R1", "R2"):
        s["res"][r]["in"] = "shared"
    out["shared"] = s
    s = copy.deepcopy(out["line"])
    for sec, side in (("res", "in"), ("res", "out"), ("sinks", "in"), ("sources", "out")):
        for i, v in s[sec].items():
            if not v.get("transport"):
                v[side] = [v[side], f"{i}_{side}_second"]
                s["queues"][f"{i}_{side}_second"] = 0
    out["several"] = s
    return out


# a state of the reference: queues {id: (capacity, is store)}, owners {(section, id, side): [ids]}
def view(ad):
    qs = {}
    for q in ad.queue_data:
        if q.ID in qs:
            return None
        qs[q.ID] = (float(q.capacity), type(q).__name__, repr(getattr(q, "location", None)) if type(q).__name__ == "StoreData" else None)
    own = {}
    for r in ad.resource_data:
        if hasattr(r, "input_queues"):
            own["m", r.ID, "in"], own["m", r.ID, "out"] = tuple(r.input_queues), tuple(r.output_queues)
    for s in ad.source_data:
        own["s", s.ID, "out"] = tuple(s.output_queues)
    for s in ad.sink_data:
        own["k", s.ID, "in"] = tuple(s.input_queues)
    for a in ad.auxiliary_data:
        own["a", a.ID, "in"] = tuple(a.storages)
    return qs, own


def rest(ad):
    d = ad.model_dump(mode="json")
    d.pop("queue_data")
    for s in d.values():
        if isinstance(s, list):
            for e in s:
                if isinstance(e, dict):
                    e.pop("input_queues", None), e.pop("output_queues", None)
    return repr(d)


NAME = {("m", "in"): "{}_default_input_queue", ("m", "out"): "{}_default_output_queue", ("s", "out"): "{}_default_output_queue", ("k", "in"): "{}_default_input_queue"}


def used(own):
    return {q for v in own.values() for q in v}


def ref(op, st):
    """reference of the helpers -> (queues, owners)"""
    qs, own = dict(st[0]), dict(st[1])
    name, cap = op
    if name in ("resources", "all"):
        for k in own:
            if k[0] == "m":
                own[k] = ()
        qs = {q: v for q, v in qs.items() if q in used(own)}
        for k in own:
            if k[0] == "m":
                n = NAME[k[0], k[2]].format(k[1])
                own[k] = (n,)
                qs[n] = (float(cap), "QueueData", None)
    for nm, kind in (("sources", "s"), ("sinks", "k")):
        if name in (nm, "all"):
            for k in own:
                if k[0] == kind and not own[k]:
                    n = NAME[k[0], k[2]].format(k[1])
                    own[k] = (n,)
                    qs[n] = (float(cap), "QueueData", None)
    if name == "unused":
        qs = {q: v for q, v in qs.items() if q in used(own)}
    return qs, own


HELPERS = [("resources", 0), ("resources", 2), ("sources", 0), ("sources", 3), ("sinks", 0), ("all", 0), ("all", 4), ("unused", None)]
EDITS = ["clear machine", "clear machines", "clear source", "clear sink", "share", "share with source", "spare", "second queue"]


def call(op, ad):
    from prodsys.adapters import adapter as A
    f = {"resources": A.add_default_queues_to_resources, "sources": A.add_default_queues_to_sources, "sinks": A.add_default_queues_to_sinks, "all": A.add_default_queues_to_adapter,
         "unused": A.remove_unused_queues_from_adapter}[op[0]]
    return f(ad) if op[1] in (None, 0) else f(ad, op[1])


def edit(op, ad):
    from prodsys.adapters import adapter as A
    from prodsys.models import queue_data
    ms = A.get_production_resources(ad)
    if op == "clear machine":
        A.remove_queues_from_resource(ms[-1])
        return [("m", ms[-1].ID, "in"), ("m", ms[-1].ID, "out")]
    if op == "clear machines":
        A.remove_queues_from_resources(ms)
        return [("m", m.ID, x) for m in ms for x in ("in", "out")]
    if op == "clear source":
        ad.source_data[0].output_queues = []
    elif op == "clear sink":
        ad.sink_data[-1].input_queues = []
    elif op == "share":
        if len(ms) > 1:
            ms[1].input_queues = list(ms[0].input_queues)
    elif op == "share with source":
        ms[0].output_queues = list(ad.source_data[0].output_queues)
    elif op == "spare":
        if all(q.ID != "spare" for q in ad.queue_data):
            ad.queue_data.append(queue_data.QueueData(ID="spare", description="", capacity=7))
    elif op == "second queue":
        if all(q.ID != "second" for q in ad.queue_data):
            ad.queue_data.append(queue_data.QueueData(ID="second", description="", capacity=1))
            ms[0].input_queues = list(ms[0].input_queues) + ["second"]
    return []


def step(op, ad, res, path):
    """-> the configuration after the operation, or None"""
    before, other = view(ad), rest(ad)
    res["transitions"] += 1
    try:
        if isinstance(op, tuple):
            out = call(op, ad)
        else:
            cleared = edit(op, ad)
            out = ad
    except Exception as e:
        res.violate(f"raises/{op[0] if isinstance(op, tuple) else op}", f"{path}: {type(e).__name__}: {str(e)[:300]}", path=path)
        return None
    if isinstance(op, tuple):
        if out is not ad:
            res.violate(f"returns/{op[0]}", f"{path}: the helper returns another configuration", path=path)
        want = ref(op, before)
        got = view(ad)
        if got is None:
            res.violate(f"twice/{op[0]}", f"{path}: a queue is listed twice: {[q.ID for q in ad.queue_data]}", path=path)
            return None
        for a, b, lab in zip(got, want, ("queues", "references")):
            if a != b:
                diff = {k: (a.get(k), b.get(k)) for k in a.keys() | b.keys() if a.get(k) != b.get(k)}
                res.violate(f"{lab}/{op[0]}", f"{path}: {lab} (found, expected) {diff}", path=path)
    else:
        for k in cleared:
            if view(ad)[1][k]:
                res.violate("clear", f"{path}: {k} keeps its queues", path=path)
    if rest(ad) != other:
        res.violate(f"changes/{op[0] if isinstance(op, tuple) else op}", f"{path}: other data changed", path=path)
    return ad


def complete(ad):
    qs, own = view(ad)
    return all(v for v in own.values()) and used(own) <= qs.keys() and not any(len(v) > 1 and k[0] == "m" for k, v in own.items())


def ends(ad, spec, res, path):
    """a complete configuration is valid and can be simulated"""
    res["runs"] += 1
    try:
        ad.validate_configuration()
    except Exception as e:
        res.violate("invalid", f"{path}: {type(e).__name__}: {str(e)[:300]}", path=path)
        return
    tr = simrun.run(spec, horizon=12, adapter=ad.model_copy(deep=True), observe=False)
    if tr.error:
        res.violate("fails", f"{path}: {tr.error[:2]}", path=path)
    res["outcomes"].add(simrun.fingerprint(tr))


def tasks(tier):
    return [dict(name=f"{n}/{i}", base=n, spec=sp, first=i) for n, sp in bases().items() for i in range(len(HELPERS) + len(EDITS))]


def run_task(task, tier):
    res = Result()
    boot.quiet()
    depth = 3 if tier == "quick" else 5
    ops = HELPERS + EDITS
    first = ops[task["first"]]
    a0 = build.build(task["spec"])
    front = [(a0, [])]
    seen = set()
    for d in range(depth):
        new = []
        for ad, path in front:
            for op in ([first] if d == 0 else ops):
                c = ad.model_copy(deep=True)
                p = path + [op if isinstance(op, str) else list(op)]
                c = step(op, c, res, p)
                if c is None:
                    continue
                v = view(c)
                key = repr((sorted(v[0].items()), sorted(v[1].items())))
                res["nontrivial"] += isinstance(op, tuple) and any(isinstance(x, str) for x in p)
                if key in seen:
                    continue
                seen.add(key)
                res["states"].add(hash((task["base"], key)))
                if isinstance(op, tuple) and complete(c) and not any(x in ("share", "share with source", "second queue") for x in p):
                    ends(c, task["spec"], res, p)
                new.append((c, p))
            if len(res["violations"]) >= 12:
                return res
        front = new
    res["samples"].append({"base": task["base"], "first": str(first), "states": len(seen)})
    res["runs"] += res["transitions"]
    return res


def replay(rep):
    res = Result()
    ad = build.build(rep["task"]["spec"])
    p = []
    for op in rep["path"]:
        op = tuple(op) if isinstance(op, list) else op
        p.append(op)
        ad = step(op, ad, res, list(p))
        if ad is None:
            return res
    if complete(ad):
        ends(ad, rep["task"]["spec"], res, p)
    return res
