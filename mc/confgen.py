"""Configurations as plain dicts: base configurations, single edits of them, and a consistency reference."""
import copy
import json
import os
import tempfile

from . import build, suites

LISTS = ("time_model_data", "state_data", "process_data", "queue_data", "node_data", "resource_data", "product_data",
         "sink_data", "source_data", "auxiliary_data")


def todict(a):
    d = {l: [json.loads(o.model_dump_json()) for o in getattr(a, l)] for l in LISTS}
    d.update(ID=a.ID, seed=a.seed)
    return d


def adapters_types():
    from prodsys.models import (auxiliary_data, node_data, processes_data, product_data, queue_data, resource_data, sink_data,
                                source_data, state_data, time_model_data)
    return dict(time_model_data=time_model_data.TIME_MODEL_DATA, process_data=processes_data.PROCESS_DATA_UNION,
                state_data=state_data.STATE_DATA_UNION, node_data=node_data.NodeData,
                resource_data=resource_data.RESOURCE_DATA_UNION, product_data=product_data.ProductData,
                source_data=source_data.SourceData, sink_data=sink_data.SinkData, auxiliary_data=auxiliary_data.AuxiliaryData,
                queue_data=queue_data.QUEUE_DATA_UNION)


def objects(d):
    from pydantic import TypeAdapter
    from prodsys.models import queue_data
    t = adapters_types()
    out = {}
    for l in LISTS:
        out[l] = []
        for x in copy.deepcopy(d[l]):
            if l == "queue_data":
                out[l].append((queue_data.StoreData if "location" in x else queue_data.QueueData)(**x))
            else:
                out[l].append(TypeAdapter(t[l]).validate_python(x))
    return out


def by_constructor(d):
    from prodsys.adapters import JsonProductionSystemAdapter
    return JsonProductionSystemAdapter(ID=d["ID"], seed=d["seed"], **objects(d))


def by_file(d):
    from prodsys.adapters import JsonProductionSystemAdapter
    fd, path = tempfile.mkstemp(suffix=".json", prefix="mc_conf_")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(d, f)
        a = JsonProductionSystemAdapter()
        a.read_data(path)
        return a
    finally:
        os.unlink(path)


def loaded():
    """A system with loading times, a link network, a compound, stores and auxiliaries in one configuration."""
    s = build.line(n_prod=3, gap=4, proc=2, machines=("R1", "R2"), plan=("P1", "P2"))
    s["tm"].update(ld=0.5, ul=0.25, su=1, bd={"seq": [9, 50]}, rp=2)
    s["procs"]["TP"].update(load="ld", unload="ul")
    s["procs"]["TQ"] = {"kind": "T", "t": "tt"}
    s["res"]["T2"] = {"loc": [1, -3], "procs": ["TQ"], "cap": 1, "caps": [1], "transport": True}
    s["states"]["SU"] = {"kind": "S", "t": "su", "from": "P1", "to": "P2"}
    s["states"]["SV"] = {"kind": "S", "t": "su", "from": "P2", "to": "P1"}
    s["states"]["BD"] = {"kind": "B", "t": "bd", "rep": "rp"}
    s["res"]["R1"]["states"] = ["SU", "SV"]
    s["res"]["R2"]["states"] = ["BD"]
    s["stores"]["ST"] = {"loc": [7, 9], "cap": 5}
    s["res"]["R1"]["out"] = ["R1_out", "ST"]
    s["prods"]["B"] = {"procs": {"P1": ["P2"], "P2": []}, "tp": "TP"}
    s["tm"]["arrB"] = {"sched": [2, 9], "abs": True}
    s["queues"].update(srcB=0, snkB=0)
    s["sources"]["SRCB"] = {"loc": [0, 6], "type": "B", "t": "arrB", "heur": "FIFO", "out": "srcB"}
    s["sinks"]["SNKB"] = {"loc": [11, 6], "type": "B", "in": "snkB"}
    return s


def bases(tier, per=None):
    """One configuration per structurally different scenario (kinds of processes, states, plans, stores, ...)."""
    th = tier == "thorough"
    per = per or (3 if th else 1)
    out, seen = [("loaded", loaded())], {}
    for fam, f in suites.FAMILIES.items():
        for t in f("quick"):
            sp = t["spec"]
            sig = json.dumps([sorted({(l, o.get("kind", "")) for o in sp[l].values()}) for l in ("procs", "states")]
                             + [type(list(sp["prods"].values())[0]["procs"]).__name__, bool(sp["stores"]), bool(sp["aux"]), bool(sp["nodes"]),
                                any("batch" in r for r in sp["res"].values()), any(isinstance(r.get("in"), list) for r in sp["res"].values())])
            seen[sig] = seen.get(sig, 0) + 1
            if seen[sig] <= per:
                out.append((t["name"], sp))
    return out


# ------------------------------------------------------------------ references
def flat(x):
    if isinstance(x, dict):
        for k, v in x.items():
            yield k
            yield from flat(v)
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from flat(y)
    elif isinstance(x, str):
        yield x


def refs(d):
    """(path, kind of the target list) of every reference; a path ending in ("key", k) renames a dict key."""
    out = []
    for i, o in enumerate(d["process_data"]):
        for k in ("time_model_id", "loading_time_model_id", "unloading_time_model_id"):
            if o.get(k):
                out.append((("process_data", i, k), "time_model_data"))
        for k in ("process_ids", "reworked_process_ids"):
            for j in range(len(o.get(k) or [])):
                out.append((("process_data", i, k, j), "process_data"))
        for j, l in enumerate(o.get("links") or []):
            out += [(("process_data", i, "links", j, e), "place") for e in (0, 1)]
    for i, o in enumerate(d["state_data"]):
        for k in ("time_model_id", "repair_time_model_id", "battery_time_model_id"):
            if o.get(k):
                out.append((("state_data", i, k), "time_model_data"))
        for k in ("process_id", "origin_setup", "target_setup"):
            if o.get(k):
                out.append((("state_data", i, k), "process_data"))
    for i, o in enumerate(d["resource_data"]):
        for k, t in (("process_ids", "process_data"), ("state_ids", "state_data"), ("input_queues", "queue_data"), ("output_queues", "queue_data")):
            out += [(("resource_data", i, k, j), t) for j in range(len(o.get(k) or []))]
    for i, o in enumerate(d["product_data"]):
        out.append((("product_data", i, "transport_process"), "process_data"))
        out += [(("product_data", i, "auxiliaries", j), "auxiliary_data") for j in range(len(o.get("auxiliaries") or []))]
        ps = o["processes"]
        if isinstance(ps, dict):
            for k, v in ps.items():
                out.append((("product_data", i, "processes", "key", k), "process_data"))
                out += [(("product_data", i, "processes", k, j), "process_data") for j in range(len(v))]
        else:
            for j, e in enumerate(ps):
                if isinstance(e, list):
                    out += [(("product_data", i, "processes", j, m), "process_data") for m in range(len(e))]
                else:
                    out.append((("product_data", i, "processes", j), "process_data"))
    for l, k in (("sink_data", "input_queues"), ("source_data", "output_queues")):
        for i, o in enumerate(d[l]):
            out.append(((l, i, "product_type"), "product_data"))
            out += [((l, i, k, j), "queue_data") for j in range(len(o.get(k) or []))]
            if l == "source_data":
                out.append(((l, i, "time_model_id"), "time_model_data"))
    for i, o in enumerate(d["auxiliary_data"] or []):
        out.append((("auxiliary_data", i, "transport_process"), "process_data"))
        for k, t in (("storages", "queue_data"), ("relevant_processes", "process_data"), ("relevant_transport_processes", "process_data")):
            out += [(("auxiliary_data", i, k, j), t) for j in range(len(o.get(k) or []))]
    return out


def put(d, path, v):
    e = copy.deepcopy(d)
    o = e
    if len(path) > 1 and path[-2] == "key":
        for p in path[:-2]:
            o = o[p]
        items = [(v if k == path[-1] else k, x) for k, x in o.items()]
        o.clear()
        o.update(items)
        return e
    for p in path[:-1]:
        o = o[p]
    o[path[-1]] = v
    return e


def get(d, path):
    if len(path) > 1 and path[-2] == "key":
        return path[-1]
    o = d
    for p in path:
        o = o[p]
    return o


def places(d):
    """Every object with a location: (list, index, kind of place)."""
    out = [("resource_data", i) for i, r in enumerate(d["resource_data"]) if r["controller"] != "TransportController"]
    out += [("source_data", i) for i in range(len(d["source_data"]))]
    out += [("sink_data", i) for i in range(len(d["sink_data"]))]
    out += [("queue_data", i) for i, q in enumerate(d["queue_data"]) if "location" in q]
    return out


def locs(o):
    """The location of an object, then its other points."""
    out = [tuple(o["location"])]
    for k in ("input_location", "output_location"):
        if o.get(k) and tuple(o[k]) not in out:
            out.append(tuple(o[k]))
    return out


# ------------------------------------------------------------------ consistency reference
def consistent(d):
    """None if the configuration is consistent, otherwise the reason."""
    ids = {l: {o["ID"] for o in d[l] or []} for l in LISTS}
    ids["place"] = ids["node_data"] | ids["resource_data"] | ids["source_data"] | ids["sink_data"]
    for path, kind in refs(d):
        if get(d, path) not in ids[kind]:
            return f"unknown reference {path}"
    procs = {o["ID"]: o for o in d["process_data"]}

    def cls(p):
        o = procs[p]
        if o["type"] in ("CapabilityProcesses", "RequiredCapabilityProcesses") or (o["type"] == "LinkTransportProcesses" and o.get("capability")):
            return "cap", o["capability"]
        return "id", p

    def expand(ps):
        out = set()
        for p in ps:
            out |= {cls(q) for q in procs[p]["process_ids"]} if procs[p]["type"] == "CompoundProcesses" else {cls(p)}
        return out
    offered = {p for r in d["resource_data"] for p in r["process_ids"]}
    if any(procs[p]["type"] == "RequiredCapabilityProcesses" for p in offered):
        return "a resource offers a required capability"
    required = set()
    for o in d["product_data"]:
        required |= set(flat(o["processes"])) | {o["transport_process"]}
    missing = expand(required) - expand(offered)
    if missing:
        return f"processes {missing} are not offered"
    sinks = {o["product_type"] for o in d["sink_data"]}
    for o in d["source_data"]:
        if o["product_type"] not in sinks:
            return f"no sink for {o['product_type']}"
    groups = {"source_data": set(), "sink_data": set()}
    used = []
    for l, i in places(d):
        if l in groups:
            groups[l] |= set(locs(d[l][i]))  # several sources (or several sinks) may share a location
        else:
            used += locs(d[l][i])
    used += list(groups["source_data"]) + list(groups["sink_data"])
    if len(used) != len(set(used)):
        return "objects at the same location"
    return None
