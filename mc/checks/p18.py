"""P18: consistent configurations are accepted, inconsistent ones rejected before anything runs."""
import copy
import itertools

from .. import confgen as G, suites
from ..harness import Result

LEVEL = "model_checking"
RULE = ("For every base configuration (one or more per structurally different scenario): every reference replaced by an unknown ID, by the ID of another kind of object or by each "
        "other ID of its list, every object deleted, every location moved onto every other object, every list field reassigned, and (thorough) pairs of "
        "edits; through the constructor, a file and attribute assignment. The decision (accept or reject) is compared with an independent "
        "consistency reference. Non-trivial: the edited configuration is inconsistent.")
ASSUMPTIONS = ["a process reference is exchanged only for a process of the same kind", "IDs are unique within a list (the code does not promise more)"]


def tasks(tier):
    out = []
    two = suites.two_types(n_tr=2)
    two["procs"]["TQ"] = {"kind": "T", "t": "tt"}
    two["res"]["T2"]["procs"] = ["TQ"]
    two["prods"]["B"]["tp"] = "TQ"
    for n, sp in G.bases(tier) + [("carriers", two), ("carriers/named", suites.renamed(two))]:
        out.append(dict(name="base/" + n, spec=sp, kind="base"))
        for k in ("refs", "kinds", "swap", "delete", "move"):
            out.append(dict(name=f"{k}/{n}", spec=sp, kind=k))
        if tier == "thorough":
            for k in range(8):
                out.append(dict(name=f"pairs{k}/{n}", spec=sp, kind="pairs", part=k))
    out.append(dict(name="models", kind="models", spec=None))
    return out


def kindof(d, i):
    return {o["ID"]: o["type"] for o in d["process_data"]}.get(i)


def edits(d, kind):
    """(name, edited configuration)"""
    if kind == "refs":
        for path, _ in G.refs(d):
            yield f"{path} := NOPE", G.put(d, path, "NOPE")
    if kind == "kinds":  # an ID that exists, but of something else
        lists = [l for l in G.LISTS if d[l]]
        for path, t in G.refs(d):
            ok = {o["ID"] for l in (("node_data", "resource_data", "source_data", "sink_data") if t == "place" else (t,)) for o in d[l]}
            for l in lists:
                v = d[l][0]["ID"]
                if v not in ok:
                    yield f"{path} := {v}", G.put(d, path, v)
    if kind == "swap":
        for path, t in G.refs(d):
            if t == "place":
                ids = [o["ID"] for l in ("node_data", "resource_data", "source_data", "sink_data") for o in d[l]]
            else:
                ids = [o["ID"] for o in d[t]]
            for v in ids:
                old = G.get(d, path)
                if v == old or (path[-2:-1] == ("key",) and v in G.get(d, path[:-2])):
                    continue
                if t == "process_data" and kindof(d, v) != kindof(d, old):
                    continue
                if t == "queue_data" and path[0] == "auxiliary_data":
                    continue
                if isinstance(path[-1], int) and v in G.get(d, path[:-1]):
                    continue
                yield f"{path} := {v}", G.put(d, path, v)
    if kind == "delete":
        for l in G.LISTS:
            for i, o in enumerate(d[l]):
                e = copy.deepcopy(d)
                e[l].pop(i)
                yield f"delete {o['ID']}", e
        for path, _ in G.refs(d):
            if isinstance(path[-1], int) and path[2] in ("process_ids",) and path[0] == "resource_data" and len(G.get(d, path[:-1])) > 1:
                e = copy.deepcopy(d)
                e["resource_data"][path[1]]["process_ids"].pop(path[-1])
                e["resource_data"][path[1]]["process_capacities"].pop(path[-1])
                yield f"delete {path}", e
    if kind == "move":
        pl = G.places(d)
        for (l, i), (m, j) in itertools.permutations(pl, 2):
            for f in ("location", "input_location", "output_location"):
                for g in ("location", "input_location", "output_location"):
                    if f in d[l][i] and d[m][j].get(g):
                        e = copy.deepcopy(d)
                        e[l][i][f] = list(d[m][j][g])
                        yield f"{d[l][i]['ID']}.{f} := {d[m][j]['ID']}.{g}", e
        for l, i in pl:
            for a, b in itertools.permutations(("location", "input_location", "output_location"), 2):
                if a in d[l][i] and b in d[l][i]:
                    e = copy.deepcopy(d)
                    e[l][i][b] = [77.0, 7.0]
                    e[l][i][a] = [77.0, 7.0]
                    yield f"{d[l][i]['ID']}.{a},{b} := free place", e


def decide(make, d):
    """accept / reject / error text"""
    from prodsys.util.runner import Runner
    try:
        a = make(d)
        a.validate_configuration()
    except ValueError as e:
        return "reject", None, str(e)
    except Exception as e:
        return f"error {type(e).__name__}: {str(e)[:150]}", None, ""
    try:
        r = Runner(adapter=a)
        r.initialize_simulation()
    except ValueError as e:
        return "reject", None, str(e)
    except Exception as e:
        return f"error while initialising {type(e).__name__}: {str(e)[:150]}", None, ""
    return "accept", r, ""


def by_assignment(base):
    def make(d):
        a = G.by_constructor(base)
        o = G.objects(d)
        for l in G.LISTS:
            if d[l] != base[l]:
                setattr(a, l, o[l])
        return a
    return make


def run_task(task, tier):
    if task["kind"] == "models":
        return models()
    from .. import build
    res = Result()
    base = G.todict(build.build(task["spec"]))
    if task["kind"] == "base":
        es = [("unchanged", base)]
    elif task["kind"] == "pairs":
        def es_():
            for n, (k1, k2) in enumerate(itertools.combinations(("refs", "delete", "move"), 2)):
                for i, (a, d1) in enumerate(itertools.islice(edits(base, k1), 0, None, 3)):
                    if i % 8 != task["part"]:
                        continue
                    for j, (b, d2) in enumerate(edits(d1, k2)):
                        if (i + j) % 5 == 0:
                            yield f"{a}; {b}", d2
        es = es_()
    else:
        es = edits(base, task["kind"])
    for name, d in es:
        try:
            want = G.consistent(d)
        except KeyError:
            continue
        paths = [("constructor", G.by_constructor), ("file", G.by_file)]
        if want is not None and task["kind"] == "refs":
            paths.append(("assignment", by_assignment(base)))
        for pn, make in paths:
            got, r, why = decide(make, d)
            res["runs"] += 1
            res["transitions"] += 1
            if got.startswith("error"):
                res.violate(f"crash/{pn}", f"{name}: {got} (reference: {want or 'consistent'})", edit=name)
            elif (got == "accept") != (want is None):
                res.violate(f"{'accepted' if got == 'accept' else 'rejected'}/{pn}", f"{name}: {got} {why} (reference: {want or 'consistent'})", edit=name)
            elif r is not None and pn == "constructor" and task["kind"] in ("base", "delete"):
                try:
                    r.run(40)
                except Exception as e:
                    res.violate("run", f"{name}: accepted, but the run raises {type(e).__name__}: {e}", edit=name)
            res["outcomes"].add((got, pn, why[:40]))
        res["nontrivial"] += want is not None
        res["states"].add(hash((task["name"], name)))
        if not res["samples"]:
            res["samples"].append({"base": task["name"], "edit": name, "decision": got, "reference": want or "consistent"})
    return res


def models():
    """Constraints of single objects."""
    from prodsys.models import (processes_data, product_data, resource_data, source_data, sink_data, state_data, time_model_data, queue_data,
                                scenario_data, core_asset)
    res = Result()

    def case(name, ok, f):
        res["runs"] += 1
        res["transitions"] += 1
        res["states"].add(hash(name))
        try:
            f()
            got = True
        except ValueError:
            got = False
        except Exception as e:
            res.violate("model-crash", f"{name}: {type(e).__name__}: {e}")
            return
        res["nontrivial"] += not ok
        res["outcomes"].add((name.split()[0], got))
        if got != ok:
            res.violate("model", f"{name}: {'accepted' if got else 'rejected'}")

    def machine(**k):
        d = dict(ID="R", description="", location=[0, 0], capacity=2, process_ids=["A", "B"], controller="PipelineController",
                 control_policy="FIFO", state_ids=[], input_queues=[], output_queues=[])
        d.update(k)
        return resource_data.ProductionResourceData(**{a: b for a, b in d.items() if b != "absent"})

    for cap, caps in itertools.product((1, 2, 3), ([1, 1], [2, 1], [1, 2], [3, 1], [1], [1, 1, 1], None, "absent")):
        ok = caps in (None, "absent") or (len(caps) == 2 and max(caps) <= cap)
        case(f"process-capacities {cap} {caps}", ok, lambda: machine(capacity=cap, process_capacities=caps))
        case(f"process-capacities-transport {cap} {caps}", ok, lambda: resource_data.TransportResourceData(**{a: b for a, b in dict(
            ID="T", description="", location=[0, 0], capacity=cap, process_ids=["A", "B"], controller="TransportController",
            control_policy="FIFO", state_ids=[], process_capacities=caps).items() if b != "absent"}))
    for ctrl, bs, cap in itertools.product(("PipelineController", "BatchController"), (None, "absent", 1, 2, 3), (1, 2, 3)):
        ok = (bs in (None, "absent")) == (ctrl == "PipelineController") and (bs in (None, "absent") or bs <= cap)
        case(f"batch {ctrl} {bs} {cap}", ok, lambda: machine(capacity=cap, controller=ctrl, batch_size=bs, process_ids=["A"]))
    for n in range(5):
        case(f"location {n}", n == 2, lambda: machine(location=[1.0] * n))
        case(f"in-location {n}", n in (0, 2), lambda: machine(input_location=[1.0] * n))
        case(f"source-location {n}", n == 2, lambda: source_data.SourceData(ID="S", description="", location=[0.0] * n, product_type="A", time_model_id="t",
                                                                          routing_heuristic="FIFO", output_queues=[]))
        case(f"sink-location {n}", n == 2, lambda: sink_data.SinkData(ID="S", description="", location=[0.0] * n, product_type="A", input_queues=[]))
        case(f"positions {n}", n == 2, lambda: scenario_data.ScenarioOptionsData(transformations=[], machine_controllers=[], transport_controllers=[],
                                                                              routing_heuristics=[], positions=[[1.0] * n]))
    for pol in ("FIFO", "LIFO", "SPT", "SPT_transport", "nearest_origin_and_longest_target_queues_transport", "fifo", "", None):
        m = ("FIFO", "LIFO", "SPT")
        case(f"policy {pol}", pol in m, lambda: machine(control_policy=pol))
    for h in ("shortest_queue", "random", "FIFO", "shortest", "", None):
        case(f"heuristic {h}", h in ("shortest_queue", "random", "FIFO"), lambda: source_data.SourceData(
            ID="S", description="", location=[0, 0], product_type="A", time_model_id="t", routing_heuristic=h, output_queues=[]))
    for t, dist in itertools.product(("f",), ("constant", "exponential", "normal", "lognormal", "uniform", "")):
        case(f"distribution {dist}", dist in ("constant", "exponential", "normal", "lognormal"), lambda: time_model_data.FunctionTimeModelData(
            ID="t", description="", distribution_function=dist, location=1.0, scale=1.0))
    for k, v in (("capacity", "x"), ("process_ids", "AB"), ("controller", "Nope"),
                 ("controller", "TransportController"), ("state_ids", 3)):
        case(f"field {k}={v}", False, lambda: machine(**{k: v}))
    for miss in ("ID", "description", "location", "capacity", "process_ids", "controller", "control_policy"):
        def f():
            try:
                machine(**{miss: "absent"})
            except (KeyError, AssertionError) as e:
                raise ValueError(e)
        case(f"missing {miss}", False, f)
    return res


def replay(rep):
    res = Result()
    from .. import build
    base = G.todict(build.build(rep["task"]["spec"]))
    for name, d in edits(base, rep["task"]["kind"]) if rep["task"]["kind"] not in ("base", "pairs") else [("unchanged", base)]:
        if name != rep.get("edit"):
            continue
        want = G.consistent(d)
        for pn, make in (("constructor", G.by_constructor), ("file", G.by_file), ("assignment", by_assignment(base))):
            got, r, why = decide(make, d)
            print(pn, got, why, "| reference:", want or "consistent")
            if got.startswith("error") or (got == "accept") != (want is None):
                res.violate(pn, got)
    return res
