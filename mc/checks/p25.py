"""P25: the express interface builds the configuration that its objects describe.

Explored: every sequence of construction steps up to a depth.  Each step acts twice: on a
graph of prodsys.express objects (with real sharing of objects) and on a reference made of
data models written down field by field.  In every state the conversion of the graph is
compared with the reference, section by section."""
import itertools
import warnings

from .. import boot
from ..harness import Result

LEVEL = "model_checking"
RULE = ("Every ordered sequence of construction steps up to the stated depth (the steps add resources, products, processes, states, stores, auxiliaries, links and shared time models "
        "to a graph of express objects), with the graph converted after every step or only at the end; in every state the converted configuration is compared section by section with "
        "a reference built from data models, converted again, validated and, where stated, simulated against the reference. Non-trivial: an object is shared by two owners.")
ASSUMPTIONS = ["object names are unique, as the interface generates them", "dictionaries as links of a link process are not constructible (unhashable keys) and not explored"]

SECTIONS = ("time_model_data", "process_data", "state_data", "node_data", "product_data", "resource_data", "source_data", "sink_data", "queue_data", "auxiliary_data")


class World:
    def __init__(self):
        import prodsys.express as psx
        self.x = psx
        self.o = {}        # express objects
        self.ref = {s: {} for s in SECTIONS}
        self.links = None
        self.link_form = None
        x = self.x
        self.tm("tA", 3)
        self.tm("tT", 1)
        self.tm("tS", 4)
        self.process("A", "tA")
        self.transport("TP", "tT")
        self.product("P1", ["A"], "TP")
        self.resources, self.sources, self.sinks = [], [], []
        self.machine("M1", ["A"], [1, 0])
        self.carrier("T1", ["TP"])
        self.source("S1", "P1", "tS", [0, 0])
        self.sink("K1", "P1", [5, 0])
        self.system = x.ProductionSystem([self.o[r] for r in self.resources], [self.o[r] for r in self.sources], [self.o[r] for r in self.sinks])

    # ---- pieces, each built on both sides
    def tm(self, n, v):
        self.o[n] = self.x.FunctionTimeModel("constant", v, ID=n)
        self.ref["time_model_data"][n] = ("FunctionTimeModelData", dict(distribution_function="constant", location=v, scale=0.0))

    def process(self, n, t, **kw):
        self.o[n] = self.x.ProductionProcess(time_model=self.o[t], ID=n, **kw)
        self.ref["process_data"][n] = ("ProductionProcessData", dict(time_model_id=t, type="ProductionProcesses", failure_rate=kw.get("failure_rate")))

    def transport(self, n, t):
        self.o[n] = self.x.TransportProcess(time_model=self.o[t], ID=n)
        self.ref["process_data"][n] = ("TransportProcessData", dict(time_model_id=t, type="TransportProcesses", loading_time_model_id=None, unloading_time_model_id=None))

    def product(self, n, ps, tp):
        self.o[n] = self.x.Product(processes=[self.o[p] for p in ps], transport_process=self.o[tp], ID=n)
        self.ref["product_data"][n] = ("ProductData", dict(processes=list(ps), transport_process=tp, auxiliaries=[]))

    def join(self, kind, n):
        getattr(self, kind).append(n)
        if hasattr(self, "system"):
            getattr(self.system, kind).append(self.o[n])

    def machine(self, n, ps, loc, size=0, **kw):
        self.o[n] = self.x.ProductionResource(processes=[self.o[p] for p in ps], location=loc, internal_queue_size=size, ID=n, **kw)
        d = dict(process_ids=list(ps), location=loc, input_location=None, output_location=None, capacity=1, batch_size=None, state_ids=[], controller="PipelineController",
                 control_policy="FIFO")
        self.ref["resource_data"][n] = ("ProductionResourceData", dict(d, **kw, _size=size, _in=[], _out=[]))
        self.join("resources", n)

    def carrier(self, n, ps, **kw):
        self.o[n] = self.x.TransportResource(processes=[self.o[p] for p in ps], ID=n, **kw)
        d = dict(process_ids=list(ps), location=[0, 0], capacity=1, state_ids=[], controller="TransportController", control_policy="FIFO")
        self.ref["resource_data"][n] = ("TransportResourceData", dict(d, **kw))
        self.join("resources", n)

    def source(self, n, p, t, loc, **kw):
        self.o[n] = self.x.Source(product=self.o[p], time_model=self.o[t], location=loc, ID=n, **kw)
        self.ref["source_data"][n] = ("SourceData", dict(location=loc, product_type=p, time_model_id=t, routing_heuristic=kw.get("routing_heuristic", "random"), _size=0))
        self.join("sources", n)

    def sink(self, n, p, loc):
        self.o[n] = self.x.Sink(product=self.o[p], location=loc, ID=n)
        self.ref["sink_data"][n] = ("SinkData", dict(location=loc, product_type=p, _size=0))
        self.join("sinks", n)

    def state(self, n, kind, cls, t, on, **refs):
        self.o[n] = getattr(self.x, kind)(time_model=self.o[t], ID=n, **{k: self.o[v] for k, (f, v) in refs.items()})
        ty = dict(BreakDownState="BreakDownState", ProcessBreakdownState="ProcessBreakDownState", SetupState="SetupState", ChargingState="ChargingState")[kind]
        self.ref["state_data"][n] = (cls, dict(time_model_id=t, type=ty, **{f: v for k, (f, v) in refs.items()}))
        for r in on:
            self.give(r, n)

    def give(self, r, st):
        self.o[r].states.append(self.o[st])
        self.ref["resource_data"][r][1]["state_ids"].append(st)

    def offer(self, r, p):
        self.o[r].processes.append(self.o[p])
        self.ref["resource_data"][r][1]["process_ids"].append(p)

    def require(self, pr, p):
        self.o[pr].processes.append(self.o[p])
        self.ref["product_data"][pr][1]["processes"].append(p)

    def store(self, n, loc, cap, **kw):
        self.o[n] = self.x.Store(location=loc, capacity=cap, ID=n, **kw)
        self.ref["queue_data"][n] = ("StoreData", dict(dict(input_location=None, output_location=None), location=loc, capacity=cap, **kw))

    def attach(self, r, side, n):
        getattr(self.o[r], "input_stores" if side == "_in" else "output_stores").append(self.o[n])
        self.ref["resource_data"][r][1][side].append(n)

    def auxiliary(self, n, tp, stores, qs, products, relevant=(), transports=()):
        self.o[n] = self.x.Auxiliary(relevant_processes=[self.o[p] for p in relevant], relevant_transport_processes=[self.o[p] for p in transports], transport_process=self.o[tp],
                                     storages=[self.o[s] for s in stores], quantity_in_storages=qs, ID=n)
        self.ref["auxiliary_data"][n] = ("AuxiliaryData", dict(transport_process=tp, storages=list(stores), quantity_in_storages=list(qs), relevant_processes=list(relevant),
                                                              relevant_transport_processes=list(transports)))
        for p in products:
            self.o[p].auxiliaries.append(self.o[n])
            self.ref["product_data"][p][1]["auxiliaries"].append(n)

    def node(self, n, loc):
        self.o[n] = self.x.Node(location=loc, ID=n)
        self.ref["node_data"][n] = ("NodeData", dict(location=loc))

    def finish(self):
        """links of the link process: every place to the node and back, through the public functions"""
        if self.link_form is None:
            return
        stores = [n for n, (k, d) in self.ref["queue_data"].items()]
        places = [n for n in self.resources if n in self.ref["resource_data"] and self.ref["resource_data"][n][0] == "ProductionResourceData"] + self.sources + self.sinks
        pairs = [p for n in places for p in ((n, "N1"), ("N1", n))] + [("N1", "N2"), ("N2", "N1"), ("N1", "N3"), ("N4", "N2")]
        L = self.o["L"]
        if self.link_form == "set":
            L.set_links([[self.o[a], self.o[b]] for a, b in pairs])
        else:
            L.set_links([])
            for a, b in pairs:
                L.add_link([self.o[a], self.o[b]])
        self.ref["process_data"]["L"][1]["links"] = [list(p) for p in pairs]


def steps():
    """name -> (function, required steps, forbidden steps)"""
    out = {}

    def step(name, need=(), no=(), shared=False):
        def deco(f):
            out[name] = (f, tuple(need), tuple(no), shared)
            return f
        return deco

    @step("second machine", shared=True)
    def _(w):
        w.machine("M2", ["A"], [2, 0])

    @step("machine with all attributes", shared=True)
    def _(w):
        w.machine("M3", ["A"], [3, 1], size=3, input_location=[3, 0], output_location=[4, 1], capacity=2, control_policy="LIFO")

    @step("batch machine", shared=True)
    def _(w):
        w.machine("M4", ["A"], [3, 3], capacity=2, batch_size=2, controller="BatchController", control_policy="SPT")

    @step("machine without a product")
    def _(w):
        w.tm("tZ", 2)
        w.process("Z", "tZ")
        w.machine("M5", ["Z"], [4, 4])

    @step("second carrier", shared=True)
    def _(w):
        w.carrier("T2", ["TP"], location=[2, 2], capacity=2, control_policy="SPT_transport")

    @step("second process")
    def _(w):
        w.tm("tB", 2)
        w.process("B", "tB")
        w.offer("M1", "B")
        w.require("P1", "B")

    @step("second process, shared time model", shared=True)
    def _(w):
        w.process("B2", "tA", failure_rate=0.5)
        w.offer("M1", "B2")
        w.require("P1", "B2")
        w.tm("tR2", 5)
        w.o["RW2"] = w.x.ReworkProcess(w.o["tR2"], [w.o["B2"]], False, ID="RW2")
        w.ref["process_data"]["RW2"] = ("ReworkProcessData", dict(time_model_id="tR2", type="ReworkProcesses", reworked_process_ids=["B2"], blocking=False))
        w.offer("M1", "RW2")

    @step("capability")
    def _(w):
        w.tm("tC", 2)
        w.o["C"] = w.x.CapabilityProcess(w.o["tC"], "weld", ID="C")
        w.ref["process_data"]["C"] = ("CapabilityProcessData", dict(time_model_id="tC", type="CapabilityProcesses", capability="weld", failure_rate=None))
        w.offer("M1", "C")
        w.o["RC"] = w.x.RequiredCapabilityProcess(capability="weld", ID="RC")
        w.ref["process_data"]["RC"] = ("RequiredCapabilityProcessData", dict(type="RequiredCapabilityProcesses", capability="weld"))
        w.require("P1", "RC")

    @step("capability required by itself", shared=True)
    def _(w):
        w.tm("tD", 2)
        w.o["D"] = w.x.CapabilityProcess(w.o["tD"], "cut", 0.25, ID="D")
        w.ref["process_data"]["D"] = ("CapabilityProcessData", dict(time_model_id="tD", type="CapabilityProcesses", capability="cut", failure_rate=0.25))
        w.tm("tE", 2)
        w.o["RE"] = w.x.ReworkProcess(w.o["tE"], [w.o["D"]], True, ID="RE")
        w.ref["process_data"]["RE"] = ("ReworkProcessData", dict(time_model_id="tE", type="ReworkProcesses", reworked_process_ids=["D"], blocking=True))
        w.offer("M1", "D")
        w.offer("M1", "RE")
        w.require("P1", "D")

    @step("rework")
    def _(w):
        w.o["A"].failure_rate = 0.5
        w.ref["process_data"]["A"][1]["failure_rate"] = 0.5
        w.tm("tW", 2)
        w.o["RW"] = w.x.ReworkProcess(w.o["tW"], [w.o["A"]], True, ID="RW")
        w.ref["process_data"]["RW"] = ("ReworkProcessData", dict(time_model_id="tW", type="ReworkProcesses", reworked_process_ids=["A"], blocking=True))
        w.offer("M1", "RW")

    @step("setup to the rework", need=["rework"], shared=True)
    def _(w):
        w.tm("tRS", 2)
        w.state("SR1", "SetupState", "SetupStateData", "tRS", ["M1"], origin_setup=("origin_setup", "A"), target_setup=("target_setup", "RW"))
        w.state("SR2", "SetupState", "SetupStateData", "tRS", ["M1"], origin_setup=("origin_setup", "RW"), target_setup=("target_setup", "A"))

    @step("loading")
    def _(w):
        w.tm("tL", 1)
        w.o["TP"].loading_time_model = w.o["tL"]
        w.ref["process_data"]["TP"][1]["loading_time_model_id"] = "tL"

    @step("unloading")
    def _(w):
        w.tm("tU", 1)
        w.o["TP"].unloading_time_model = w.o["tU"]
        w.ref["process_data"]["TP"][1]["unloading_time_model_id"] = "tU"

    @step("loading and unloading shared", no=["loading", "unloading"], shared=True)
    def _(w):
        w.o["TP"].loading_time_model = w.o["TP"].unloading_time_model = w.o["tA"]
        w.ref["process_data"]["TP"][1].update(loading_time_model_id="tA", unloading_time_model_id="tA")

    for form in ("set", "add"):
        @step(f"links, {form}", no=["links, add" if form == "set" else "links, set", "links by capability"])
        def _(w, form=form):
            w.tm("tK", 1)
            w.node("N1", [1, 1])
            w.node("N2", [2, 1])
            w.node("N3", [3, 1])  # only at the end of a link
            w.node("N4", [4, 1])  # only at the start of a link
            w.o["L"] = w.x.LinkTransportProcess(time_model=w.o["tK"], ID="L")
            w.ref["process_data"]["L"] = ("LinkTransportProcessData", dict(time_model_id="tK", type="LinkTransportProcesses", links=[], capability="", loading_time_model_id=None,
                                                                         unloading_time_model_id=None))
            w.offer("T1", "L")
            w.o["P1"].transport_process = w.o["L"]
            w.ref["product_data"]["P1"][1]["transport_process"] = "L"
            w.link_form = form

    @step("links by capability", no=["links, add", "links, set"], shared=True)
    def _(w):
        w.node("N1", [1, 1])
        w.node("N2", [2, 1])
        w.node("N3", [3, 1])
        w.node("N4", [4, 1])
        w.o["L"] = w.x.LinkTransportProcess(time_model=w.o["tT"], ID="L", capability="go", loading_time_model=w.o["tA"])
        w.ref["process_data"]["L"] = ("LinkTransportProcessData", dict(time_model_id="tT", type="LinkTransportProcesses", links=[], capability="go", loading_time_model_id="tA",
                                                                     unloading_time_model_id=None))
        w.offer("T1", "L")
        w.o["RL"] = w.x.RequiredCapabilityProcess(capability="go", ID="RL")
        w.ref["process_data"]["RL"] = ("RequiredCapabilityProcessData", dict(type="RequiredCapabilityProcesses", capability="go"))
        w.o["P1"].transport_process = w.o["RL"]
        w.ref["product_data"]["P1"][1]["transport_process"] = "RL"
        w.link_form = "set"

    @step("distance")
    def _(w):
        w.o["tDi"] = w.x.DistanceTimeModel(speed=2, reaction_time=0.5, metric="euclidean", ID="tDi")
        w.ref["time_model_data"]["tDi"] = ("DistanceTimeModelData", dict(speed=2, reaction_time=0.5, metric="euclidian"))
        w.o["TP"].time_model = w.o["tDi"]
        w.ref["process_data"]["TP"][1]["time_model_id"] = "tDi"

    @step("samples and manhattan")
    def _(w):
        w.o["tSa"] = w.x.SampleTimeModel(samples=[3.0], ID="tSa")
        w.ref["time_model_data"]["tSa"] = ("SampleTimeModelData", dict(samples=[3.0]))
        w.o["A"].time_model = w.o["tSa"]
        w.ref["process_data"]["A"][1]["time_model_id"] = "tSa"
        w.o["tMh"] = w.x.ManhattanDistanceTimeModel(speed=2, reaction_time=0.5, ID="tMh")
        w.ref["time_model_data"]["tMh"] = ("ManhattanDistanceTimeModelData", dict(speed=2, reaction_time=0.5))
        w.o["TPm"] = w.x.TransportProcess(time_model=w.o["tMh"], ID="TPm")
        w.ref["process_data"]["TPm"] = ("TransportProcessData", dict(time_model_id="tMh", type="TransportProcesses", loading_time_model_id=None, unloading_time_model_id=None))
        w.offer("T1", "TPm")

    @step("schedule and sequence")
    def _(w):
        w.o["tSc"] = w.x.ScheduledTimeModel(schedule=[1.0, 3.0], absolute=False, cyclic=True, ID="tSc")
        w.ref["time_model_data"]["tSc"] = ("ScheduledTimeModelData", dict(schedule=[1.0, 3.0], absolute=False, cyclic=True))
        w.o["S1"].time_model = w.o["tSc"]
        w.ref["source_data"]["S1"][1]["time_model_id"] = "tSc"
        w.o["tSq"] = w.x.SequentialTimeModel(sequence=[2.0], ID="tSq")
        w.ref["time_model_data"]["tSq"] = ("SequentialTimeModelData", dict(sequence=[2.0]))
        w.o["Q"] = w.x.ProductionProcess(w.o["tSq"], ID="Q")
        w.ref["process_data"]["Q"] = ("ProductionProcessData", dict(time_model_id="tSq", type="ProductionProcesses", failure_rate=None))
        w.offer("M1", "Q")

    @step("breakdown")
    def _(w):
        w.tm("tBD", 11)
        w.tm("tRe", 2)
        w.state("BD", "BreakDownState", "BreakDownStateData", "tBD", ["M1"], repair_time_model=("repair_time_model_id", "tRe"))

    @step("breakdown shared", need=["breakdown"], shared=True)
    def _(w):
        w.give("T1", "BD")

    @step("process breakdown", shared=True)
    def _(w):
        w.tm("tPR", 3)
        w.state("PBD", "ProcessBreakdownState", "ProcessBreakDownStateData", "tS", ["M1"], repair_time_model=("repair_time_model_id", "tPR"), process=("process_id", "A"))

    @step("setups", need=["second process"], no=["setup to the rework"], shared=True)
    def _(w):
        w.tm("tSe", 2)
        w.state("SU1", "SetupState", "SetupStateData", "tSe", ["M1"], origin_setup=("origin_setup", "A"), target_setup=("target_setup", "B"))
        w.state("SU2", "SetupState", "SetupStateData", "tSe", ["M1"], origin_setup=("origin_setup", "B"), target_setup=("target_setup", "A"))

    @step("charging")
    def _(w):
        w.tm("tCh", 2)
        w.tm("tBa", 9)
        w.state("CH", "ChargingState", "ChargingStateData", "tCh", ["T1"], battery_time_model=("battery_time_model_id", "tBa"))

    @step("second product", shared=True)
    def _(w):
        w.product("P2", ["A"], "TP")
        w.tm("tS2", 6)
        w.source("S2", "P2", "tS2", [0, 1], routing_heuristic="shortest_queue")
        w.sink("K2", "P2", [5, 1])

    @step("second source", shared=True)
    def _(w):
        w.source("S3", "P1", "tS", [0, 2], routing_heuristic="FIFO")

    @step("second sink", shared=True)
    def _(w):
        w.sink("K3", "P1", [5, 2])

    @step("auxiliary", no=["auxiliary, own transport"], shared=True)
    def _(w):
        w.store("X1", [1, 2], 0)
        w.auxiliary("AX", "TP", ["X1"], [2], ["P1"], transports=["TP"])

    @step("auxiliary, own transport", no=["auxiliary"])
    def _(w):
        w.tm("tAT", 1)
        w.transport("ATP", "tAT")
        w.carrier("T3", ["ATP"])
        w.store("X1", [1, 2], 3, input_location=[1, 3], output_location=[2, 3])
        w.store("X2", [1, 4], 0)
        w.auxiliary("AX", "ATP", ["X1", "X2"], [2, 1], ["P1"], relevant=["A"], transports=["TP"])

    @step("auxiliary of two products", need=["second product"], shared=True)
    def _(w):
        w.store("X3", [1, 5], 0)
        w.auxiliary("AX2", "TP", ["X3"], [1], ["P2"] if "AX" in w.o else ["P1", "P2"], transports=["TP"])

    @step("input store")
    def _(w):
        w.store("Y1", [2, 5], 2)
        w.attach("M1", "_in", "Y1")

    @step("output store")
    def _(w):
        w.store("Y2", [2, 6], 0, input_location=[2, 7], output_location=[3, 7])
        w.attach("M1", "_out", "Y2")

    @step("shared store", need=["second machine", "input store"], shared=True)
    def _(w):
        w.attach("M2", "_in", "Y1")

    @step("store on both sides", need=["output store"], shared=True)
    def _(w):
        w.attach("M1", "_in", "Y2")

    @step("store of a machine and an auxiliary", need=["input store"], no=["auxiliary", "auxiliary, own transport", "auxiliary of two products"], shared=True)
    def _(w):
        w.auxiliary("AX3", "TP", ["Y1"], [1], ["P1"], transports=["TP"])
    return out


def trim(w):
    """a time model that nothing refers to any more is not part of the system"""
    used = {v for s in w.ref.values() for k, d in s.values() for f, v in d.items() if f.endswith("time_model_id")}
    w.ref["time_model_data"] = {t: e for t, e in w.ref["time_model_data"].items() if t in used}


def reference(w):
    """section -> ID -> data model, with the names of the generated queues left open"""
    import prodsys.models as m
    mods = dict(time_model_data=m.time_model_data, process_data=m.processes_data, state_data=m.state_data, node_data=m.node_data, product_data=m.product_data,
                resource_data=m.resource_data, source_data=m.source_data, sink_data=m.sink_data, queue_data=m.queue_data, auxiliary_data=m.auxiliary_data)
    return {s: {n: getattr(mods[s], cls)(ID=n, description="", **{k: v for k, v in d.items() if not k.startswith("_")}) for n, (cls, d) in e.items()}
            for s, e in w.ref.items()}


def plain(x):
    d = x.model_dump(mode="json")
    for k in ("description", "input_queues", "output_queues"):
        d.pop(k, None)
    return type(x).__name__, d


def compare(w, ad):
    """-> list of (signature, message)"""
    out = []
    trim(w)
    ref = reference(w)
    drawers = {}
    for s in SECTIONS:
        got = {}
        for e in getattr(ad, s):
            if e.ID in got:
                out.append((f"twice/{s}", f"{e.ID} is listed twice in {s}"))
            got[e.ID] = e
        if s == "queue_data":
            drawers = {n: e for n, e in got.items() if n not in ref[s]}
            got = {n: e for n, e in got.items() if n in ref[s]}
        for n in ref[s].keys() - got.keys():
            out.append((f"lost/{s}", f"{n} is missing in {s}"))
        for n in got.keys() - ref[s].keys():
            out.append((f"extra/{s}", f"{n} is in {s} but not in the system"))
        for n in got.keys() & ref[s].keys():
            a, b = plain(got[n]), plain(ref[s][n])
            if a != b:
                out.append((f"differs/{s}", f"{n}: converted {a}, described {b}"))
    # generated queues: one per side and owner, of the stated size, owned by nobody else
    owners = {}
    for sec, sides in (("resource_data", ("input_queues", "output_queues")), ("source_data", ("output_queues",)), ("sink_data", ("input_queues",))):
        for e in getattr(ad, sec):
            kind, d = w.ref[sec].get(e.ID, (None, None))
            if d is None or kind == "TransportResourceData":
                continue
            for side in sides:
                stores = d.get("_in" if side == "input_queues" else "_out", [])
                qs = list(getattr(e, side))
                own = [q for q in qs if q not in stores]
                if sorted(q for q in qs if q in stores) != sorted(stores) or len(own) != 1:
                    out.append(("queues", f"{e.ID}.{side} is {qs}, described: one queue and {stores}"))
                    continue
                owners.setdefault(own[0], []).append((e.ID, side, d["_size"]))
    for q, os in owners.items():
        if len(os) != 1:
            out.append(("queues", f"queue {q} is shared by {os}"))
        if q not in drawers:
            out.append(("lost/queue_data", f"queue {q} of {os[0][0]} is missing"))
        elif drawers[q].capacity != os[0][2] or type(drawers[q]).__name__ != "QueueData":
            out.append(("queues", f"queue {q} of {os[0][0]} has capacity {drawers[q].capacity}, described {os[0][2]}"))
    for q in drawers.keys() - owners.keys():
        out.append(("extra/queue_data", f"queue {q} belongs to nobody"))
    return out


def full(ad):
    return {s: [e.model_dump(mode="json") for e in getattr(ad, s)] for s in SECTIONS}


def sequences(tier):
    """-> (steps, order matters?)"""
    S = steps()

    def ok(seq):
        for i, n in enumerate(seq):
            f, need, no, sh = S[n]
            if any(k not in seq[:i] for k in need) or any(k in seq for k in no):
                return False
        return True
    depth = 2 if tier == "quick" else 3
    for d in range(depth + 1):
        for seq in itertools.permutations(S, d):
            if ok(seq):
                yield seq
    # beyond this depth one order of every set of steps
    names = list(S)
    for seq in itertools.combinations(names, depth + 1):
        if ok(seq):
            yield seq


def tasks(tier):
    n = 16
    return [dict(name=f"part{k:02d}", k=k, n=n) for k in range(n)]


def simulate(w, ad, res, path):
    from prodsys.adapters import JsonProductionSystemAdapter
    from prodsys.util.runner import Runner

    def events(r):
        df = r.event_logger.get_data_as_dataframe()
        return [tuple(str(x) for x in row) for row in df[["Time", "Resource", "State", "State Type", "Activity", "Product"]].itertuples(index=False)]
    ref = reference(w)
    lists = {}
    for s in SECTIONS:
        lst = []
        for e in getattr(ad, s):
            r = ref[s].get(e.ID)
            if r is None:
                lst.append(e.model_copy(deep=True))
                continue
            r = r.model_copy(deep=True)
            for k in ("input_queues", "output_queues"):
                if hasattr(e, k):
                    setattr(r, k, list(getattr(e, k)))
            lst.append(r)
        lists[s] = lst
    other = JsonProductionSystemAdapter(**lists)
    for seed, T in ((0, 30), (3, 17)):
        other.seed = seed
        a = Runner(adapter=other.model_copy(deep=True))
        try:
            a.initialize_simulation()
            a.run(T)
            want = events(a)
        except Exception as e:
            want = f"{type(e).__name__}"
        try:
            w.system.run(T, seed)
            got = events(w.system.runner)
        except Exception as e:
            got = f"{type(e).__name__}"
        res["runs"] += 2
        res["transitions"] += len(got)
        if got != want:
            i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
            res.violate("run", f"seed {seed}: the run of the express system differs from the run of the configuration at event {i}: {got[i:i + 1]} / {want[i:i + 1]}", path=path)
        elif isinstance(got, list):
            df = w.system.post_processor.df_raw if hasattr(w.system.post_processor, "df_raw") else None
            if df is not None and len(df) != len(got):
                res.violate("post", "the post processor of the system does not show its run", path=path)


def examine(seq, mode, sim, res):
    path = dict(steps=list(seq), mode=mode)
    S = steps()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            w = World()
            for i, n in enumerate(seq):
                S[n][0](w)
                if mode == "always":
                    w.finish()
                    w.system.to_model()
            w.finish()
        except Exception as e:
            return res.violate("construct", f"{seq}: {type(e).__name__}: {e}", path=path)
        try:
            ad = w.system.to_model()
            again = w.system.to_model()
        except Exception as e:
            return res.violate("convert", f"{seq}: {type(e).__name__}: {e}", path=path)
        res["transitions"] += 2
        for sig, msg in compare(w, ad):
            res.violate(sig, f"{seq} ({mode}): {msg}", path=path)
        if full(ad) != full(again):
            res.violate("again", f"{seq}: a second conversion differs", path=path)
        try:
            w.system.to_model().validate_configuration()
            w.system.validate()
        except Exception as e:
            res.violate("invalid", f"{seq}: the configuration is rejected: {type(e).__name__}: {str(e)[:300]}", path=path)
        else:
            if sim:
                simulate(w, ad, res, path)
        res["states"].add(hash(str(full(ad))))
        res["nontrivial"] += any(S[n][3] for n in seq)


def run_task(task, tier):
    res = Result()
    boot.quiet()
    for i, seq in enumerate(sequences(tier)):
        if i % task["n"] != task["k"]:
            continue
        modes = ["end"] if len(seq) < 2 else ["end", "always"]
        for m in modes:
            res["runs"] += 1
            examine(seq, m, m == "end" and len(seq) <= (1 if tier == "quick" else 2), res)
    res["samples"].append({"part": task["name"], "sequences": res["runs"], "configurations": len(res["states"])})
    return res


def replay(rep):
    res = Result()
    p = rep["path"]
    examine(p["steps"], p["mode"], True, res)
    return res
