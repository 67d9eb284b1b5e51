"""P20: the hash of a configuration identifies what the system is, not how it is written down."""
import copy
import itertools

from .. import build, confgen as G
from ..harness import Result
from .p18 import kindof

LEVEL = "model_checking"
RULE = ("For every base configuration: every permutation that moves one object (or one entry of a list field) to the front or reverses a list, renaming of all objects of a list "
        "and of all lists, every single change of a number, location, option or reference, and every exchange of two values of the same field within an object or between two "
        "objects (thorough: also pairs of changes). Equality of the hashes is compared with equality of the contents, in which references are replaced by what they refer to. "
        "Non-trivial: the contents of the edited configuration differ.")
ASSUMPTIONS = ["product plans are sequences (others are documented as not supported)", "only the properties that the documentation names as part of the hash are compared"]


def tasks(tier):
    out = []
    for n, sp in G.bases(tier):
        for k in ("order", "names", "values", "refs", "swap") + (("pairs",) if tier == "thorough" else ()):
            out.append(dict(name=f"{k}/{n}", kind=k, spec=sp))
    for k in GAPS:
        out.append(dict(name="gap/" + k, kind="gap", spec=None, gap=k))
    return out


# ------------------------------------------------------------------ contents
def loc(x):
    return tuple(float(v) for v in x) if x else None


def content(d):
    by = {l: {o["ID"]: o for o in d[l]} for l in G.LISTS}

    def tm(i):
        if i is None:
            return None
        o = by["time_model_data"][i]
        return tuple(sorted((k, str(v)) for k, v in o.items() if k not in ("ID", "description", "batch_size")))

    def proc(i):
        o = by["process_data"][i]
        t = o["type"]
        if t == "CompoundProcesses":
            return t, tuple(sorted(map(repr, map(proc, o["process_ids"]))))
        if t == "RequiredCapabilityProcesses":
            return t, o["capability"]
        k = (t, tm(o["time_model_id"]))
        if t in ("TransportProcesses", "LinkTransportProcesses"):
            k += (tm(o.get("loading_time_model_id")), tm(o.get("unloading_time_model_id")))
        if t == "LinkTransportProcesses":
            k += (tuple(sorted(map(tuple, o["links"]))),)
        if t in ("ProductionProcesses", "CapabilityProcesses"):
            k += (float(o.get("failure_rate") or 0),)
        return k + (o.get("capability"),)

    def state(i):
        o = by["state_data"][i]
        t = o["type"]
        k = (t, tm(o["time_model_id"]))
        if t in ("BreakDownState", "ProcessBreakDownState"):
            k += (tm(o["repair_time_model_id"]),)
        if t == "ProcessBreakDownState":
            k += (proc(o["process_id"]),)
        if t == "ChargingState":
            k += (tm(o["battery_time_model_id"]),)
        return k  # the processes of setups: see the gaps

    def queue(i):
        o = by["queue_data"][i]
        if "location" in o:
            return (o["capacity"], loc(o["location"]), loc(o.get("input_location") or o["location"]), loc(o.get("output_location") or o["location"]))
        return (o["capacity"],)

    def many(f, ids):
        return tuple(sorted(repr(f(i)) for i in ids or []))

    def res(o):
        k = (loc(o["location"]), o["capacity"], o["controller"], tuple(sorted(repr((proc(p), c)) for p, c in zip(o["process_ids"], o["process_capacities"]))),
             many(state, o["state_ids"]))
        if o["controller"] != "TransportController":
            k += (loc(o.get("input_location") or o["location"]), loc(o.get("output_location") or o["location"]), 
                  many(queue, (o["input_queues"] or []) + (o["output_queues"] or [])))  # the direction: see the gaps
        return k

    def prod(i):
        o = next(p for p in d["product_data"] if p["product_type"] == i)
        return (tuple(map(proc, o["processes"])), proc(o["transport_process"]))

    out = [many(tm, by["time_model_data"]), many(state, by["state_data"]), many(proc, by["process_data"]), many(queue, by["queue_data"]),
           tuple(sorted(repr(loc(o["location"])) for o in d["node_data"])), tuple(sorted(repr(res(o)) for o in d["resource_data"])),
           many(prod, [o["product_type"] for o in d["product_data"]]),
           tuple(sorted(repr((loc(o["location"]), prod(o["product_type"]), many(queue, o["input_queues"]))) for o in d["sink_data"])),
           tuple(sorted(repr((loc(o["location"]), prod(o["product_type"]), tm(o["time_model_id"]), o["routing_heuristic"], many(queue, o["output_queues"])))
                        for o in d["source_data"])),
           tuple(sorted(repr((o["auxiliary_type"], tuple(o["quantity_in_storages"]), proc(o["transport_process"]), tuple(map(queue, o["storages"])),
                              many(proc, o["relevant_processes"]), many(proc, o["relevant_transport_processes"]))) for o in d["auxiliary_data"]))]
    return tuple(out)


def is_setup(d):
    return any(s["type"] == "SetupState" for s in d["state_data"])


def is_link(d):
    return any(p["type"] == "LinkTransportProcesses" for p in d["process_data"])


# ------------------------------------------------------------------ edits
LISTS_IN = {"resource_data": ("state_ids", "input_queues", "output_queues"), "sink_data": ("input_queues",), "source_data": ("output_queues",),
            "process_data": ("process_ids", "links"), "auxiliary_data": ("relevant_processes", "relevant_transport_processes")}


def perms(n):
    if n < 2:
        return
    yield tuple(reversed(range(n)))
    for i in range(1, n):
        yield (i,) + tuple(j for j in range(n) if j != i)


def orders(d):
    for l in G.LISTS:
        if l == "process_data" and is_setup(d):
            continue
        for p in perms(len(d[l])):
            e = copy.deepcopy(d)
            e[l] = [e[l][i] for i in p]
            yield f"{l} in the order {p}", e
        for i, o in enumerate(d[l]):
            for k in LISTS_IN.get(l, ()):
                for p in perms(len(o.get(k) or [])):
                    e = copy.deepcopy(d)
                    e[l][i][k] = [e[l][i][k][j] for j in p]
                    yield f"{o['ID']}.{k} in the order {p}", e
            if l == "resource_data":
                for p in perms(len(o["process_ids"])):
                    e = copy.deepcopy(d)
                    for k in ("process_ids", "process_capacities"):
                        e[l][i][k] = [e[l][i][k][j] for j in p]
                    yield f"processes of {o['ID']} in the order {p}", e
    e = copy.deepcopy(d)
    for l in G.LISTS:
        if l != "process_data" or not is_setup(d):
            e[l].reverse()
    yield "all lists reversed", e


def renamed(d, lists, style):
    new = {}
    for l in lists:
        for n, o in enumerate(d[l]):
            new[l, o["ID"]] = {"prefix": "Z_" + o["ID"], "number": f"{l[:2]}{n}", "turn": f"{l[:2]}{len(d[l]) - n}"}[style]
    e = copy.deepcopy(d)
    # references first (the paths are those of the old configuration), dict keys and places are not renamed here
    for path, t in G.refs(d):
        v = G.get(d, path)
        if (t, v) in new:
            e = G.put(e, path, new[t, v])
    for l in lists:
        for o, old in zip(e[l], d[l]):
            o["ID"] = new[l, old["ID"]]
            if l == "product_data":
                o["product_type"] = o["ID"]
    return e


def names(d):
    ls = [l for l in G.LISTS if d[l] and not (is_link(d) and l in ("node_data", "resource_data", "source_data", "sink_data"))]
    for l in ls:
        for st in ("prefix", "number", "turn"):
            yield f"{l} renamed ({st})", renamed(d, [l], st)
    for st in ("prefix", "number", "turn"):
        yield f"all renamed ({st})", renamed(d, ls, st)
    e = copy.deepcopy(d)
    for l in G.LISTS:
        for n, o in enumerate(e[l]):
            o["description"] = f"text {n}"
    e["ID"], e["seed"] = "other system", 77
    yield "descriptions, ID and seed", e


def values(d):
    enums = {"routing_heuristic": ("FIFO", "random", "shortest_queue"), "metric": ("manhattan", "euclidian"),
             "distribution_function": ("constant", "normal", "exponential", "lognormal")}
    skip = {"ID", "type", "controller", "product_type", "auxiliary_type", "batch_size", "control_policy", "router", "blocking", "description", "scenario"}
    for l in G.LISTS:
        for i, o in enumerate(d[l]):
            for k, v in o.items():
                if k in skip:
                    continue
                if k in enums:
                    vals = [x for x in enums[k] if x != v]
                elif isinstance(v, bool):
                    vals = [not v]
                elif isinstance(v, int) and not isinstance(v, bool):
                    vals = [v + 1, v + 10] + ([v - 1] if v > 1 else [])
                elif isinstance(v, float):
                    vals = [v + 1.0, v + 0.25, v * 10 if v else 0.125]
                elif isinstance(v, list) and v and all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in v):
                    vals = [v[:j] + [v[j] + w] + v[j + 1:] for j in range(len(v)) for w in ((1, -1) if isinstance(v[j], int) else (0.5, -0.25))]
                    if k not in ("location", "input_location", "output_location", "process_capacities", "quantity_in_storages"):
                        vals += [v + [v[-1]]]
                elif k == "capability" and isinstance(v, str):
                    vals = []
                else:
                    continue
                for x in vals:
                    yield f"{o['ID']}.{k} := {x}", G.put(d, (l, i, k), x)


def refs(d):
    for path, t in G.refs(d):
        if t == "place" or path[-1] in ("origin_setup", "target_setup") or "reworked_process_ids" in path or "auxiliaries" in path:
            continue
        old = G.get(d, path)
        for v in [o["ID"] for o in d[t]]:
            if v == old or (t == "process_data" and kindof(d, v) != kindof(d, old)) or (isinstance(path[-1], int) and v in G.get(d, path[:-1])):
                continue
            yield f"{path} := {v}", G.put(d, path, v)


def same_field(d):
    """Paths of exchangeable values: numbers and references of one field (of all objects of a list)."""
    out = {}
    for l in G.LISTS:
        for i, o in enumerate(d[l]):
            for k, v in o.items():
                if k in ("ID", "type", "controller", "product_type", "description", "control_policy", "batch_size", "blocking", "router", "auxiliary_type"):
                    continue
                if k in ("input_queues", "output_queues"):
                    out.setdefault((l, "queues"), []).extend((l, i, k, j) for j in range(len(v or [])))
                elif k in ("location", "input_location", "output_location"):
                    if v:
                        out.setdefault((l, "places"), []).append((l, i, k))
                elif isinstance(v, list) and v and not isinstance(v[0], list) and k not in ("reworked_process_ids", "auxiliaries"):
                    out.setdefault((l, k), []).extend((l, i, k, j) for j in range(len(v)))
                elif isinstance(v, (int, float)) and not isinstance(v, bool):
                    out.setdefault((l, k), []).append((l, i, k))
                elif k.endswith("time_model_id") and v:
                    out.setdefault((l, "times"), []).append((l, i, k))
    return out


def swaps(d):
    # distinct capacities, so that an exchange is visible
    bases = [("", d)]
    e = copy.deepcopy(d)
    sinks = {q for s in d["sink_data"] for q in s["input_queues"]}
    for n, q in enumerate(e["queue_data"]):
        if q["ID"] not in sinks:
            q["capacity"] = 11 + n
    for n, r in enumerate(e["resource_data"]):
        r["capacity"] = 6 + n
        r["process_capacities"] = [1 + (j + n) % 6 for j in range(len(r["process_ids"]))]
    bases.append(("distinct: ", e))
    for pre, b in bases:
        for (l, k), paths in same_field(b).items():
            for x, y in itertools.combinations(paths, 2):
                u, v = G.get(b, x), G.get(b, y)
                if u == v:
                    continue
                if k == "process_ids" and l == "resource_data" and kindof(b, u) != kindof(b, v):
                    continue
                if k == "processes" and kindof(b, u) != kindof(b, v):
                    continue
                yield f"{pre}{x} <-> {y}", b, G.put(G.put(b, x, v), y, u)


# ------------------------------------------------------------------ what the hash cannot tell apart (see known_findings.json)
def gap_base(kind):
    s = build.line(n_prod=2, machines=("R1",), plan=("P1", "P2"))
    s["tm"].update(t2=5, su=1)
    s["procs"]["P2"]["t"] = "t2"
    if kind.startswith("setup"):
        s["procs"]["P3"] = {"t": "t3"}
        s["tm"]["t3"] = 7
        s["res"]["R1"].update(procs=["P1", "P2", "P3"], caps=[1, 1, 1])
        for a, b in itertools.permutations(("P1", "P2", "P3"), 2):
            s["states"][f"S{a}{b}"] = {"kind": "S", "t": "su", "from": a, "to": b}
            s["res"]["R1"].setdefault("states", []).append(f"S{a}{b}")
    if kind.startswith("queue"):
        s["queues"].update(R1_in=3, R1_out=4)
    if kind.startswith("rework"):
        s["procs"]["RW"] = {"kind": "RW", "t": "t2", "of": ["P1"], "blocking": True}
        s["res"]["R1"].update(procs=["P1", "P2", "RW"], caps=[1, 1, 1])
        s["procs"]["P1"]["fail"] = 0.2
    return G.todict(build.build(s))


def gap_setup_direction(d):
    for o in d["state_data"]:
        if (o["origin_setup"], o["target_setup"]) == ("P2", "P3"):
            o["origin_setup"], o["target_setup"] = "P3", "P2"
    return False


def gap_setup_order(d):
    d["process_data"].reverse()
    return True


def gap_queue_direction(d):
    for o, c in zip((q for q in d["queue_data"] if q["ID"].startswith("R1_")), (4, 3)):
        o["capacity"] = c
    return False


def gap_rework_blocking(d):
    for o in d["process_data"]:
        if "blocking" in o:
            o["blocking"] = False
    return False


def gap_rework_processes(d):
    for o in d["process_data"]:
        if "reworked_process_ids" in o:
            o["reworked_process_ids"] = ["P2"]
    return False


GAPS = {"setup-direction": gap_setup_direction, "setup-order": gap_setup_order, "queue-direction": gap_queue_direction, "rework-blocking": gap_rework_blocking, "rework-processes": gap_rework_processes}


# ------------------------------------------------------------------ the decision
def hash_of(d):
    try:
        a = G.by_constructor(d)
    except Exception:
        return "rejected", None
    try:
        return "ok", (a.hash(), content(G.todict(a)))
    except NotImplementedError:
        return "plan", None
    except Exception as x:
        return "raises", x


def run_task(task, tier):
    res = Result()
    if task["kind"] == "gap":
        d = gap_base(task["gap"])
        e = copy.deepcopy(d)
        same = GAPS[task["gap"]](e)
        x, y = G.by_constructor(d).hash(), G.by_constructor(e).hash()
        res["runs"] += 2
        res["transitions"] += 1
        res["states"] |= {hash(x), hash(y)}
        if (x == y) != same:
            res.violate("gap/" + task["gap"], f"the hash {'changes' if same else 'stays'}")
        return res
    d = G.todict(build.build(task["spec"]))
    st, h0 = hash_of(d)
    if st != "ok":
        if st == "raises":
            res.violate("raises", f"{type(h0).__name__}: {h0}")
        return res
    memo = {id(d): h0}
    es = {"order": orders, "names": names, "values": values, "refs": refs, "swap": swaps, "pairs": pairs}[task["kind"]](d)
    for x in es:
        name, base, e = x if len(x) == 3 else (x[0], d, x[1])
        if id(base) not in memo:
            memo[id(base)] = hash_of(base)[1]
        b = memo[id(base)]
        if b is None:
            continue
        res["runs"] += 1
        st, h = hash_of(e)
        if st in ("rejected", "plan"):
            continue
        res["transitions"] += 1
        if st == "raises":
            if not isinstance(h, RecursionError):
                res.violate("raises", f"{name}: {type(h).__name__}: {h}", edit=name)
            continue
        same = b[1] == h[1]
        if same != (b[0] == h[0]):
            res.violate("equal" if not same else "different", f"{name}: the contents are {'equal' if same else 'different'}, the hashes are not" if same else
                        f"{name}: the contents differ, the hashes are equal", edit=name)
        if task["kind"] == "names" and not same or task["kind"] == "order" and not same:
            res["notes"].append(f"{name} changes the contents")
        res["states"].add(hash(h[1]))
        res["nontrivial"] += not same
    res["samples"].append({"base": task["name"], "edits": res["runs"], "accepted": res["transitions"]})
    return res


def pairs(d):
    vs = list(values(d))[::3] + list(refs(d))[::3]
    hs = {}
    for (n, e), (m, f) in itertools.islice(itertools.combinations(vs, 2), 4000):
        yield f"{n} | {m}", e, f
