"""Compact, JSON-able system specifications -> prodsys configuration objects.

A spec is a plain dict (see `S`); every time model is either a number (constant), a
list (samples) or a dict.  The builder only uses the public data models."""
import copy
import json


def S(**kw):
    d = dict(seed=0, tm={}, procs={}, states={}, queues={}, stores={}, nodes={}, res={},
             prods={}, sources={}, sinks={}, aux={}, scenario=None)
    d.update(kw)
    return d


def tm_data(ID, v):
    from prodsys.models import time_model_data as t
    if isinstance(v, (int, float)):
        return t.FunctionTimeModelData(ID=ID, description="", distribution_function="constant",
                                       location=float(v), scale=0.0, batch_size=4)
    if isinstance(v, (list, tuple)):
        return t.SampleTimeModelData(ID=ID, description="", samples=[float(x) for x in v])
    if "sched" in v:
        return t.ScheduledTimeModelData(ID=ID, description="", schedule=v["sched"],
                                        absolute=v.get("abs", True), cyclic=v.get("cyc", False))
    if "dist" in v:
        sp, re = v["dist"][:2]
        kw = {"metric": v["dist"][2]} if len(v["dist"]) > 2 else {}
        return t.DistanceTimeModelData(ID=ID, description="", speed=sp, reaction_time=re, **kw)
    if "fn" in v:
        n, loc, sc = v["fn"][:3]
        return t.FunctionTimeModelData(ID=ID, description="", distribution_function=n, location=loc,
                                       scale=sc, batch_size=v["fn"][3] if len(v["fn"]) > 3 else 4)
    if "seq" in v:
        return t.SequentialTimeModelData(ID=ID, description="", sequence=v["seq"])
    if "manh" in v:
        return t.ManhattanDistanceTimeModelData(ID=ID, description="", speed=v["manh"][0], reaction_time=v["manh"][1])
    raise ValueError(v)


def proc_data(ID, p):
    from prodsys.models import processes_data as m
    k = p.get("kind", "P")
    if k == "P":
        return m.ProductionProcessData(ID=ID, description="", type="ProductionProcesses",
                                       time_model_id=p["t"], failure_rate=p.get("fail", 0.0))
    if k == "C":
        return m.CapabilityProcessData(ID=ID, description="", type="CapabilityProcesses",
                                       time_model_id=p["t"], capability=p["cap"], failure_rate=p.get("fail", 0.0))
    if k == "RC":
        return m.RequiredCapabilityProcessData(ID=ID, description="", type="RequiredCapabilityProcesses",
                                               capability=p["cap"])
    if k == "CP":
        return m.CompoundProcessData(ID=ID, description="", type="CompoundProcesses", process_ids=list(p["ids"]))
    if k == "RW":
        return m.ReworkProcessData(ID=ID, description="", type="ReworkProcesses", time_model_id=p["t"],
                                   reworked_process_ids=list(p["of"]), blocking=p["blocking"])
    if k == "T":
        return m.TransportProcessData(ID=ID, description="", type="TransportProcesses", time_model_id=p["t"],
                                      loading_time_model_id=p.get("load"), unloading_time_model_id=p.get("unload"))
    if k == "L":
        return m.LinkTransportProcessData(ID=ID, description="", type="LinkTransportProcesses",
                                          time_model_id=p["t"], links=[list(l) for l in p["links"]],
                                          capability=p.get("cap"),
                                          loading_time_model_id=p.get("load"), unloading_time_model_id=p.get("unload"))
    raise ValueError(k)


def state_data(ID, s):
    from prodsys.models import state_data as m
    k = s["kind"]
    if k == "B":
        return m.BreakDownStateData(ID=ID, description="", type="BreakDownState", time_model_id=s["t"],
                                    repair_time_model_id=s["rep"])
    if k == "PB":
        return m.ProcessBreakDownStateData(ID=ID, description="", type="ProcessBreakDownState", time_model_id=s["t"],
                                           repair_time_model_id=s["rep"], process_id=s["proc"])
    if k == "S":
        return m.SetupStateData(ID=ID, description="", type="SetupState", time_model_id=s["t"],
                                origin_setup=s["from"], target_setup=s["to"])
    if k == "CH":
        return m.ChargingStateData(ID=ID, description="", type="ChargingState", time_model_id=s["t"],
                                   battery_time_model_id=s["bat"])
    raise ValueError(k)


def _l(v):
    return [v] if isinstance(v, str) else list(v)


def res_data(ID, r):
    from prodsys.models import resource_data as m
    procs = list(r["procs"])
    common = dict(ID=ID, description="", location=[float(x) for x in r.get("loc", [0, 0])],
                  process_ids=procs, state_ids=list(r.get("states", [])))
    if r.get("transport"):
        cap = r.get("cap", 1)
        return m.TransportResourceData(capacity=cap, controller="TransportController",
                                       control_policy=r.get("pol", "FIFO"),
                                       process_capacities=r.get("caps", [cap] * len(procs)), **common)
    cap = r.get("cap", 1)
    kw = {}
    for k, f in (("in_loc", "input_location"), ("out_loc", "output_location")):
        if k in r:
            kw[f] = [float(x) for x in r[k]]
    if "batch" in r:
        kw["batch_size"] = r["batch"]
    return m.ProductionResourceData(capacity=cap, controller=r.get("ctrl", "PipelineController"),
                                    control_policy=r.get("pol", "FIFO"),
                                    process_capacities=r.get("caps", [cap] * len(procs)),
                                    input_queues=_l(r.get("in", [])), output_queues=_l(r.get("out", [])),
                                    **kw, **common)


def build(spec):
    """-> ProductionSystemAdapter (JsonProductionSystemAdapter) for a spec."""
    from prodsys.adapters import JsonProductionSystemAdapter
    from prodsys.models import (queue_data, node_data, product_data, sink_data, source_data,
                                auxiliary_data, scenario_data)
    return JsonProductionSystemAdapter(**parts(spec))


def parts(spec):
    from prodsys.models import (queue_data, node_data, product_data, sink_data, source_data,
                                auxiliary_data, scenario_data)
    s = copy.deepcopy(spec)
    qs = [queue_data.QueueData(ID=k, description="", capacity=v) for k, v in s["queues"].items()]
    for k, v in s["stores"].items():
        kw = {}
        for a, f in (("in_loc", "input_location"), ("out_loc", "output_location")):
            if a in v:
                kw[f] = [float(x) for x in v[a]]
        qs.append(queue_data.StoreData(ID=k, description="", capacity=v.get("cap", 0),
                                       location=[float(x) for x in v["loc"]], **kw))
    d = dict(
        ID=s.get("ID", ""), seed=s["seed"],
        time_model_data=[tm_data(k, v) for k, v in s["tm"].items()],
        process_data=[proc_data(k, v) for k, v in s["procs"].items()],
        state_data=[state_data(k, v) for k, v in s["states"].items()],
        queue_data=qs,
        node_data=[node_data.NodeData(ID=k, description="", location=[float(x) for x in v]) for k, v in s["nodes"].items()],
        resource_data=[res_data(k, v) for k, v in s["res"].items()],
        product_data=[product_data.ProductData(ID=k, description="", product_type=v.get("type", k),
                                               processes=v["procs"], transport_process=v["tp"],
                                               auxiliaries=list(v.get("aux", []))) for k, v in s["prods"].items()],
        source_data=[source_data.SourceData(ID=k, description="", location=[float(x) for x in v.get("loc", [0, 0])],
                                            product_type=v["type"], time_model_id=v["t"],
                                            routing_heuristic=v.get("heur", "FIFO"),
                                            output_queues=_l(v.get("out", []))) for k, v in s["sources"].items()],
        sink_data=[sink_data.SinkData(ID=k, description="", location=[float(x) for x in v.get("loc", [9, 9])],
                                      product_type=v["type"], input_queues=_l(v.get("in", []))) for k, v in s["sinks"].items()],
        auxiliary_data=[auxiliary_data.AuxiliaryData(ID=k, description="", auxiliary_type=v.get("type", k),
                                                     transport_process=v["tp"], storages=_l(v["stores"]),
                                                     quantity_in_storages=list(v["qty"]),
                                                     relevant_processes=list(v.get("rel", [])),
                                                     relevant_transport_processes=list(v.get("relt", []))) for k, v in s["aux"].items()],
    )
    if s.get("scenario"):
        d["scenario_data"] = scenario_data.ScenarioData(**s["scenario"])
    return d


# ------------------------------------------------------------------ a standard line
def line(n_prod=3, gap=2, proc=3, tr=1, machines=("R1",), plan=("P1",), cap=1, procs=None,
         inq=0, outq=0, srcq=0, heur="FIFO", pol="FIFO", tpol="FIFO", n_tr=1, tcap=1, first=1, **over):
    """A source, machines (each offering all processes of `plan`), transporters, a sink."""
    procs = procs or {p: {"t": "tp_" + p} for p in dict.fromkeys(plan)}
    s = S()
    s["tm"]["arr"] = {"sched": [first + i * gap for i in range(n_prod)], "abs": True}
    s["tm"]["tt"] = tr if not isinstance(tr, dict) else tr
    for p in procs:
        s["tm"]["tp_" + p] = proc if not isinstance(proc, dict) else proc[p]
    s["procs"] = dict(procs)
    s["procs"]["TP"] = {"kind": "T", "t": "tt"}
    for i, m in enumerate(machines):
        s["queues"][m + "_in"] = inq
        s["queues"][m + "_out"] = outq
        s["res"][m] = {"loc": [5, i * 4], "procs": list(procs), "caps": [cap] * len(procs), "cap": cap,
                       "pol": pol, "in": m + "_in", "out": m + "_out"}
    for i in range(n_tr):
        s["res"][f"T{i + 1}"] = {"loc": [0, -2], "procs": ["TP"], "cap": tcap, "caps": [tcap], "pol": tpol, "transport": True}
    s["queues"]["src_q"] = srcq
    s["queues"]["snk_q"] = 0
    s["prods"]["A"] = {"procs": list(plan), "tp": "TP"}
    s["sources"]["SRC"] = {"loc": [0, 0], "type": "A", "t": "arr", "heur": heur, "out": "src_q"}
    s["sinks"]["SNK"] = {"loc": [10, 0], "type": "A", "in": "snk_q"}
    for k, v in over.items():
        if isinstance(v, dict) and isinstance(s.get(k), dict):
            s[k].update(v)
        else:
            s[k] = v
    return s


def key(spec):
    return json.dumps(spec, sort_keys=True, default=str)
