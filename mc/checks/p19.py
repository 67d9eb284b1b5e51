"""P19: saving and loading a configuration preserves it."""
import json
import os
import tempfile

from .. import build, confgen as G, simrun, suites
from ..explore import Chooser
from ..harness import Result

LEVEL = "model_checking"
RULE = ("Every scenario system (all families) and every single edit of a field of the base configurations is written to a file and read again (by a fresh "
        "object, by an object that held another system, twice, and through dump and validate); compared field by field, by hash, by file content and - for the "
        "scenario systems - by the complete event log of a run. Scenario data likewise. Non-trivial: the configuration differs from its base.")
ASSUMPTIONS = ["the scenario data are stored in a file of their own (as read_data and write_scenario_data define)"]


def tasks(tier):
    th = tier == "thorough"
    out = []
    for f, fam in suites.FAMILIES.items():
        ts = fam("thorough" if th else "quick")
        n = 400 if th else 12
        for t in ts[::max(1, len(ts) // n)]:
            out.append(dict(name="sys/" + t["name"], kind="sys", spec=t["spec"], horizon=min(t["horizon"], 60)))
    for n, sp in G.bases(tier):
        out.append(dict(name="edit/" + n, kind="edit", spec=sp))
    out.append(dict(name="scenario", kind="scenario", spec=None))
    return out


def roundtrip(a, reader=None):
    from prodsys.adapters import JsonProductionSystemAdapter
    fd, path = tempfile.mkstemp(suffix=".json", prefix="mc_rt_")
    os.close(fd)
    try:
        a.write_data(path)
        with open(path) as f:
            text = f.read()
        b = reader or JsonProductionSystemAdapter()
        b.read_data(path)
        b.write_data(path)
        with open(path) as f:
            text2 = f.read()
    finally:
        os.unlink(path)
    return b, text, text2


def full(a):
    """All fields of all objects, with their classes, independent of the serialisation of the library."""
    def conv(o):
        if hasattr(o, "__dict__") and hasattr(type(o), "model_fields"):
            if type(o).__name__ == "ManhattanDistanceTimeModelData":  # deprecated: read back as its successor with this metric
                return {"__class__": "DistanceTimeModelData", "metric": "manhattan", **{k: conv(getattr(o, k)) for k in type(o).model_fields}}
            return {"__class__": type(o).__name__, **{k: conv(getattr(o, k)) for k in type(o).model_fields}}
        if isinstance(o, dict):
            return {k: conv(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [conv(x) for x in o]
        if hasattr(o, "value"):
            return o.value
        return o
    d = {l: conv(getattr(a, l)) for l in G.LISTS}
    d.update(ID=a.ID, seed=a.seed)
    return d


def diff(x, y, path=""):
    if isinstance(x, dict) and isinstance(y, dict):
        for k in sorted(set(x) | set(y), key=str):
            if k not in x or k not in y:
                return f"{path}/{k} only on one side"
            r = diff(x[k], y[k], f"{path}/{k}")
            if r:
                return r
        return None
    if isinstance(x, list) and isinstance(y, list):
        if len(x) != len(y):
            return f"{path}: {len(x)} and {len(y)} entries"
        for i, (a, b) in enumerate(zip(x, y)):
            r = diff(a, b, f"{path}[{i}]")
            if r:
                return r
        return None
    return None if x == y and isinstance(x, bool) == isinstance(y, bool) else f"{path}: {x!r} and {y!r}"


def safe_hash(a):
    if any(type(t).__name__ == "ManhattanDistanceTimeModelData" for t in a.time_model_data):
        a = a.model_copy(deep=True)
        from prodsys.models.time_model_data import DistanceTimeModelData as D
        a.time_model_data = [D(**t.model_dump()) if type(t).__name__ == "ManhattanDistanceTimeModelData" else t for t in a.time_model_data]
    try:
        return a.hash()
    except NotImplementedError:
        return "not supported"
    except Exception as x:
        return f"{type(x).__name__}: {x}"


def compare(res, a, name, others):
    from prodsys.adapters import JsonProductionSystemAdapter
    res["runs"] += 1
    before = full(a)
    try:
        b, t1, t2 = roundtrip(a)
        c, _, _ = roundtrip(a, others() if others else None)
        e = JsonProductionSystemAdapter.model_validate_json(a.model_dump_json())
        g = JsonProductionSystemAdapter.model_validate(a.model_dump())
        h = a.model_copy(deep=True)
    except Exception as x:
        res.violate("raises", f"{name}: {type(x).__name__}: {str(x)[:300]}", edit=name)
        return None
    if diff(before, full(a)):
        res.violate("write-changes", f"{name}: {diff(before, full(a))}", edit=name)
    for lab, o in (("file", b), ("file-into-used-object", c), ("json", e), ("dict", g), ("copy", h)):
        res["transitions"] += 1
        d = diff(before, full(o))
        if d:
            res.violate(f"differs/{lab}", f"{name}: {d}", edit=name)
        elif safe_hash(o) != safe_hash(a):
            res.violate(f"hash/{lab}", f"{name}: the hash changes", edit=name)
    if t1 != t2 and not any(type(t).__name__ == "ManhattanDistanceTimeModelData" for t in a.time_model_data):
        res.violate("second-write", f"{name}: writing the read configuration gives another file", edit=name)
    res["states"].add(hash(t1))
    res["outcomes"].add(hash(t1))
    return b


def other_system():
    """A system with something in every list."""
    sp = suites.link_line([["SRC", "N1"], ["N1", "R1"], ["R1", "N2"], ["N2", "SNK"], ["SRC", "ST"]], {"N1": [2, 0], "N2": [7, 0]})
    sp.update(ID="other system", seed=77)
    sp["stores"]["ST"] = {"loc": [0, 4], "cap": 0}
    sp["aux"]["AX"] = {"tp": "TP", "stores": "ST", "qty": [1], "relt": ["TP"]}
    sp["prods"]["A"]["aux"] = ["AX"]
    sp["tm"].update(up=40, rep=3)
    sp["states"]["BD"] = {"kind": "B", "t": "up", "rep": "rep"}
    sp["res"]["R1"]["states"] = ["BD"]
    a = build.build(sp)
    assert all(getattr(a, l) for l in G.LISTS), [l for l in G.LISTS if not getattr(a, l)]
    return a


NEW = {str: "Renamed text", bool: None, int: 3, float: 2.75}


def edits(d):
    """One scalar or list field of one object changed (references keep their targets)."""
    refs = {p for p, _ in G.refs(d)}
    skip = {"ID", "type", "controller", "product_type", "auxiliary_type", "distribution_function", "capability", "batch_size", "links", "metric", "capacity",
            "quantity_in_storages", "process_capacities"}
    enums = {"control_policy": ("LIFO", "SPT", "FIFO"), "routing_heuristic": ("FIFO", "random", "shortest_queue"), "router": ("SimpleRouter", "AvoidDeadlockRouter")}
    for l in G.LISTS:
        for i, o in enumerate(d[l]):
            for k, v in o.items():
                p = (l, i, k)
                if k in enums:
                    vals = [x for x in enums[k] if x != v]
                elif k == "capacity" and l == "queue_data" and not any(o["ID"] in s["input_queues"] for s in d["sink_data"]):
                    vals = [7, 0]
                elif k == "batch_size" and l == "time_model_data":
                    vals = [9]
                elif k in skip or p in refs:
                    continue
                elif k == "description":
                    vals = ["Ümläut \"quoted\" \\ \n €", ""]
                elif isinstance(v, bool):
                    vals = [not v]
                elif isinstance(v, (int, float)):
                    vals = [2.75, 0.1 + 0.2] if k != "batch_size" else [9]
                elif k in ("location", "input_location", "output_location"):
                    vals = [[-3.5, 1e-7], [1e6, 0.1 + 0.2]]
                elif k in ("samples", "sequence", "schedule"):
                    vals = [list(v) + [11.5], [0.1 + 0.2]]
                elif v is None or isinstance(v, (list, dict)) or isinstance(v, str):
                    continue
                else:
                    vals = []
                for x in vals:
                    yield f"{p} := {x!r}", G.put(d, p, x)


def run_task(task, tier):
    res = Result()
    if task["kind"] == "scenario":
        return scenario()
    a = build.build(task["spec"])
    if task["kind"] == "sys":
        b = compare(res, a, task["name"], other_system)
        if b is not None:
            logs = []
            for o in (build.build(task["spec"]), b):
                tr = simrun.run(task["spec"], Chooser([]), horizon=task["horizon"], adapter=o, observe=False)
                logs.append((json.dumps(tr.log, default=str), tr.error and tr.error[0]))
                res["transitions"] += len(tr.log)
            if logs[0] != logs[1]:
                res.violate("log", "the loaded configuration behaves differently", edit=task["name"])
            res["nontrivial"] += len(logs[0][0]) > 200
        res["samples"].append({"system": task["name"], "objects": sum(len(getattr(a, l)) for l in G.LISTS)})
        return res
    d = G.todict(a)
    d["queue_data"] = [json.loads(q.model_dump_json()) for q in a.queue_data]
    for n, (name, e) in enumerate(edits(d)):
        try:
            b = G.by_constructor(e)
        except ValueError:
            continue
        if not diff(full(a), full(b)):
            continue
        compare(res, b, name, None)
        res["nontrivial"] += 1
        if not res["samples"]:
            res["samples"].append({"base": task["name"], "edit": name})
    return res


def scenario():
    from prodsys.adapters import JsonProductionSystemAdapter
    from prodsys.models import scenario_data as s
    import itertools
    res = Result()
    ob = [s.Objective(name=n, weight=w) for n, w in (("throughput", 1.0), ("WIP", 0.5), ("throughput_time", 2.5), ("cost", 0))]
    fd, path = tempfile.mkstemp(suffix=".json", prefix="mc_sc_")
    os.close(fd)
    fd, path2 = tempfile.mkstemp(suffix=".json", prefix="mc_sc_")
    os.close(fd)
    try:
        for trs, nob, mx, pos, wk in itertools.product((["layout"], ["production_capacity", "sequencing_logic", "routing_logic"], [e.value for e in s.ReconfigurationEnum]),
                                                       (1, 3, 4), (1, 8), ([[0.5, 1.0]], [[1, 2], [3, 4.25]]), (None, 4)):
            x = s.ScenarioData(constraints=dict(max_reconfiguration_cost=100.5 * mx, max_num_machines=mx, max_num_processes_per_machine=mx + 1,
                                                max_num_transport_resources=2, target_product_count={"A": mx} if wk else None),
                               options=dict(transformations=trs, machine_controllers=["FIFO", "SPT"], transport_controllers=["FIFO"],
                                            routing_heuristics=["random"], positions=pos),
                               info=dict(machine_cost=1.5, transport_resource_cost=2, process_module_cost=3, breakdown_cost=wk, time_range=10 * mx,
                                         maximum_breakdown_time=wk),
                               objectives=ob[:nob], weights={"WIP": 0.25} if wk else None)
            a = build.build(suites.FAMILIES["flow"]("quick")[0]["spec"])
            a.scenario_data = x
            a.write_scenario_data(path)
            a.write_data(path2)
            res["runs"] += 1
            res["transitions"] += 1
            res["nontrivial"] += 1
            for lab in ("read_scenario", "read_data"):
                b = JsonProductionSystemAdapter()
                try:
                    if lab == "read_data":
                        b.read_data(path2, path)
                    else:
                        b.read_scenario(path)
                except Exception as e:
                    res.violate("raises", f"{lab}: {type(e).__name__}: {str(e)[:200]}")
                    continue
                if b.scenario_data != x:
                    res.violate("scenario", f"{lab}: {b.scenario_data} instead of {x}")
                if lab == "read_data" and diff(full(a), full(b)):
                    res.violate("scenario-system", diff(full(a), full(b)))
            res["states"].add(hash(str(x)))
    finally:
        os.unlink(path)
        os.unlink(path2)
    return res


def replay(rep):
    res = Result()
    task = rep["task"]
    if task["kind"] != "edit":
        return run_task(task, "quick")
    d = G.todict(build.build(task["spec"]))
    for name, e in edits(d):
        if name == rep.get("edit"):
            compare(res, G.by_constructor(e), name, None)
    return res
