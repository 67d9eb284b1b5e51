"""P24: the web service stores, changes, simulates and returns exactly what was asked for."""
import collections
import copy
import hashlib
import json
import logging
import os
import re
import shutil
import sys
import tempfile

from .. import boot, build
from ..build import S
from ..harness import Result

LEVEL = "model_checking"
RULE = ("Every sequence of requests of an alphabet (creation, update, update under another name, removal, of existing and missing objects; simulations; registration of optimised "
        "systems) sent to the real application, explored breadth first to a fixpoint of the reachable stored states (or to the stated depth); after every request everything that can "
        "be read is compared with a reference store. Non-trivial: requests that change the stored state or that must be refused.")
ASSUMPTIONS = ["requests are handled one after the other", "in-memory backend", "the order in which objects are listed is not compared, except for events"]

KINDS = {"time_models": "time_model_data", "processes": "process_data", "queues": "queue_data", "resources": "resource_data", "products": "product_data",
         "sinks": "sink_data", "sources": "source_data", "states": "state_data"}


# ------------------------------------------------------------------ application
class App:
    def __init__(self):
        os.environ.pop("PRODSYS_BACKEND", None)
        cwd = os.getcwd()
        os.chdir(boot.REPO)
        try:
            import prodsys_api
            from app import dependencies
        finally:
            os.chdir(cwd)
        logging.disable(logging.CRITICAL)
        boot.fast_adapters()
        import tqdm
        from prodsys.simulation import sim
        sim.VERBOSE = 1
        self.silence()
        from fastapi.testclient import TestClient
        self.cm = TestClient(prodsys_api.app, raise_server_exceptions=False)
        self.c = self.cm.__enter__()
        self.cwd = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="mc_p24_")
        os.chdir(self.dir)
        import plotly.basedatatypes as bd
        import plotly.io as pio
        self.drawing = bd.BaseFigure.write_html, pio.to_html
        to_html = pio.to_html  # pages without the script library, and no files of them
        pio.to_html = lambda fig, *a, **k: to_html(fig, *a, **dict(k, include_plotlyjs=False))
        bd.BaseFigure.write_html = lambda self, file, *a, **k: None
        self.dep = dependencies
        self.be = dependencies.prodsys_backend
        self.reset()

    def silence(self):
        self.std = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = open(os.devnull, "w")

    def close(self):
        self.cm.__exit__(None, None, None)
        import plotly.basedatatypes as bd
        import plotly.io as pio
        bd.BaseFigure.write_html, pio.to_html = self.drawing
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)
        sys.stdout, sys.stderr = self.std

    def tables(self):
        """The dictionaries that the service keeps besides its backend."""
        return {k: v for k, v in vars(self.dep).items() if type(v) is dict and not k.startswith("__")}

    def reset(self):
        while True:
            st, ps = self.req("GET", "/projects/")
            if not ps:
                break
            for p in ps:
                self.req("DELETE", "/projects/" + p["ID"])
        for v in self.tables().values():
            v.clear()

    def save(self):
        return copy.deepcopy(vars(self.be)), {k: dict(v) for k, v in self.tables().items()}

    def load(self, s):
        vars(self.be).clear()
        vars(self.be).update(copy.deepcopy(s[0]))
        for k, v in self.tables().items():
            v.clear()
            v.update(s[1][k])

    def key(self):
        return digest([plain(vars(self.be)), {k: sorted(map(str, v)) for k, v in self.tables().items()}])

    def req(self, method, path, body=None):
        r = self.c.request(method, path, json=body) if body is not None else self.c.request(method, path)
        try:
            return r.status_code, r.json()
        except Exception:
            return r.status_code, r.text


def plain(x, depth=0):
    """A comparable picture of the stored state, whatever it is made of."""
    if isinstance(x, dict):
        return [[str(k), plain(v, depth + 1)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [plain(v, depth + 1) for v in x]
    if type(x).__name__ == "PostProcessor":
        import pandas as pd
        return [type(x).__name__, int(pd.util.hash_pandas_object(x.df_raw[["Time", "Resource", "State", "Activity", "Product"]].astype(str)).sum()) % 2 ** 61]
    if type(x).__name__ == "Performance":
        return digest(x.model_dump(mode="json"))
    if hasattr(x, "model_dump"):
        return [type(x).__name__] + [[k, plain(getattr(x, k), depth + 1)] for k in type(x).model_fields]
    return str(x) if isinstance(x, (str, int, float, bool, type(None))) or hasattr(x, "value") else type(x).__name__


def digest(x):
    return hashlib.md5(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()


# ------------------------------------------------------------------ reference
def srt(l):
    return sorted(l, key=lambda o: json.dumps(o, sort_keys=True))


def nfa(a):
    """Normal form of an adapter document: the lists of objects unordered."""
    if not isinstance(a, dict):
        return a
    return {k: srt(v) if isinstance(v, list) and v and isinstance(v[0], dict) else v for k, v in a.items()}


def nfp(p):
    if not isinstance(p, dict):
        return p
    return {"ID": p.get("ID"), "adapters": srt([nfa(a) for a in p.get("adapters", [])]), "performances": p.get("performances") or {}}


def ref_projects(m):
    return srt([{"ID": p, "adapters": srt([nfa(a) for a in d["a"].values()]), "performances": d["p"]} for p, d in m.items()])


def diff(a, b, path=""):
    if type(a) != type(b):
        return f"{path}: {str(a)[:80]} / {str(b)[:80]}"
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return f"{path}.{k}: {'missing' if k not in a else 'unexpected'}"
            d = diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} / {len(b)} entries"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return None
    return None if a == b else f"{path}: {str(a)[:80]} / {str(b)[:80]}"


class Req:
    """One request. eff(m): mutates the copy m and returns the expected response body (or Any), or raises KeyError if it has to be refused."""

    def __init__(self, name, method, path, body, eff):
        self.name, self.method, self.path, self.body, self.eff = name, method, path, body, eff


ANY = object()


class Refuse(Exception):
    pass


class Skip(Exception):
    """The request is not explored in this state."""


# ------------------------------------------------------------------ alphabets
def sysdoc(ID, n=1, **kw):
    sp = S(tm={"t": float(n), "ia": 2.0, "tr": {"dist": [60.0, 0.1]}}, procs={"P": {"t": "t"}, "TP": {"t": "tr", "kind": "T"}},
           queues={q: 0 for q in ("in", "out", "so", "si")},
           res={"M": {"procs": ["P"], "loc": [1, 0], "in": "in", "out": "out"}, "tr": {"procs": ["TP"], "transport": True}},
           prods={"A": {"procs": ["P"], "tp": "TP"}}, sources={"s": {"type": "A", "t": "ia", "out": "so", "loc": [0, 0], "heur": "FIFO"}},
           sinks={"k": {"type": "A", "in": "si", "loc": [3, 0]}})
    sp.update(kw)
    d = json.loads(build.build(sp).model_dump_json())
    d["ID"] = ID
    return d


def empty(ID):
    from prodsys.adapters import JsonProductionSystemAdapter
    d = json.loads(JsonProductionSystemAdapter(ID=ID).model_dump_json())
    return d


def proj(m, p):
    if p not in m:
        raise Refuse()
    return m[p]


def adap(m, p, a):
    if a not in proj(m, p)["a"]:
        raise Refuse()
    return m[p]["a"][a]


def projects_alphabet(docs, ids=("p", "q"), aids=("a", "b"), adapters=True, projects=True):
    """docs: {aid: [doc...]}"""
    out = []

    def post_p(i, body):
        def eff(m):
            if i in m:
                raise Refuse()
            m[i] = {"a": {a["ID"]: a for a in body["adapters"]}, "p": {}}
            return nfp(body)
        return eff

    def put_p(i, body):
        def eff(m):
            if i not in m or body["ID"] != i and body["ID"] in m:
                raise Refuse()
            del m[i]
            m[body["ID"]] = {"a": {a["ID"]: a for a in body["adapters"]}, "p": {}}
            return nfp(body)
        return eff

    def del_p(i):
        def eff(m):
            proj(m, i)
            del m[i]
            return ANY
        return eff

    def bodies(i):
        yield "empty", {"ID": i, "adapters": [], "performances": {}}
        yield "full", {"ID": i, "adapters": [docs[aids[0]][0]], "performances": {}}
    if projects:
        for i in ids:
            for n, b in bodies(i):
                out.append(Req(f"POST project {i} {n}", "POST", "/projects/", b, post_p(i, b)))
            for j in ids:
                for n, b in bodies(j):
                    out.append(Req(f"PUT project {i} -> {j} {n}", "PUT", f"/projects/{i}", b, put_p(i, b)))
            out.append(Req(f"DELETE project {i}", "DELETE", f"/projects/{i}", None, del_p(i)))
    if adapters:
        for i in ids:
            for a in aids:
                for n, d in enumerate(docs[a]):
                    out.append(post_a(i, a, d, n))
                for b in aids:
                    for n, d in enumerate(docs[b]):
                        out.append(put_a(i, a, b, d, n))
                out.append(del_a(i, a))
    return out


def post_a(i, a, d, n=0):
    def eff(m):
        if a in proj(m, i)["a"]:
            raise Refuse()
        m[i]["a"][a] = copy.deepcopy(d)
        return nfa(d)
    return Req(f"POST adapter {i}/{a} content {n}", "POST", f"/projects/{i}/adapters/", d, eff)


def put_a(i, a, b, d, n=0):
    def eff(m):
        adap(m, i, a)
        if b != a and b in m[i]["a"]:
            raise Refuse()
        del m[i]["a"][a]
        m[i]["p"].pop(a, None)
        m[i]["a"][b] = copy.deepcopy(d)
        return nfa(d)
    return Req(f"PUT adapter {i}/{a} -> {b} content {n}", "PUT", f"/projects/{i}/adapters/{a}", d, eff)


def del_a(i, a):
    def eff(m):
        adap(m, i, a)
        del m[i]["a"][a]
        m[i]["p"].pop(a, None)
        return ANY
    return Req(f"DELETE adapter {i}/{a}", "DELETE", f"/projects/{i}/adapters/{a}", None, eff)


def obj_reqs(kind, p, a, bodies, missing="zz"):
    """bodies: {ID: [contents]}"""
    f = KINDS[kind]
    url = f"/projects/{p}/adapters/{a}/{kind}/"
    out = []

    def find(m, ID):
        for i, o in enumerate(adap(m, p, a)[f]):
            if o["ID"] == ID:
                return i
        return None

    def post(ID, b):
        def eff(m):
            if find(m, ID) is not None:
                raise Refuse()
            m[p]["a"][a][f].append(b)
            m[p]["p"].pop(a, None)
            return b
        return eff

    def put(ID, b):
        def eff(m):
            i = find(m, ID)
            if i is None or b["ID"] != ID and find(m, b["ID"]) is not None:
                raise Refuse()
            m[p]["a"][a][f][i] = b
            m[p]["p"].pop(a, None)
            return b
        return eff

    def dele(ID):
        def eff(m):
            i = find(m, ID)
            if i is None:
                raise Refuse()
            m[p]["a"][a][f].pop(i)
            m[p]["p"].pop(a, None)
            return ANY
        return eff
    for ID, bs in bodies.items():
        for n, b in enumerate(bs):
            out.append(Req(f"POST {p}/{a}/{kind}/{ID} content {n}", "POST", url, b, post(ID, b)))
            for to in list(bodies) + [missing]:
                out.append(Req(f"PUT {p}/{a}/{kind}/{to} := {ID} content {n}", "PUT", url + to, b, put(to, b)))
        out.append(Req(f"DELETE {p}/{a}/{kind}/{ID}", "DELETE", url + ID, None, dele(ID)))
    out.append(Req(f"DELETE {p}/{a}/{kind}/{missing}", "DELETE", url + missing, None, dele(missing)))
    return out


def objects(kind):
    """{ID: [contents]} of a kind, the contents of different classes where the kind has several."""
    tm = {"x": 1.0, "y": {"sched": [1.0, 2.0]}, "x2": [1.0, 2.0], "y2": {"dist": [60.0, 0.5]}, "c": {"seq": [1.0, 3.0]}}
    sp = S(tm={"t": 1.0, **tm}, procs={"P": {"t": "t"}, "TP": {"t": "t", "kind": "T"}, "C": {"t": "t", "kind": "C", "cap": "cc"}, "RC": {"kind": "RC", "cap": "cc"},
                                       "L": {"t": "t", "kind": "L", "links": [["M", "N"]]}, "CP": {"kind": "CP", "ids": ["P"]},
                                       "RW": {"t": "t", "kind": "RW", "of": ["P"], "blocking": True}, "P2": {"t": "t", "fail": 0.5}},
           queues={q: 0 for q in ("in", "out", "so", "si", "in2", "out2", "so2", "si2")},
           stores={"st": {"cap": 3, "loc": [4, 4]}},
           states={"B": {"kind": "B", "t": "t", "rep": "t"}, "PB": {"kind": "PB", "t": "t", "rep": "t", "proc": "P"}, "SU": {"kind": "S", "t": "t", "from": "P", "to": "P2"},
                   "CH": {"kind": "CH", "t": "t", "bat": "t"}},
           res={"M": {"procs": ["P"], "loc": [1, 0], "in": "in", "out": "out"}, "tr": {"procs": ["TP"], "transport": True, "loc": [1, 1]},
                "N": {"procs": ["C"], "loc": [2, 0], "in": "in2", "out": "out2", "cap": 2}, "tr2": {"procs": ["TP"], "transport": True, "loc": [1, 2], "pol": "SPT_transport"}},
           prods={"A": {"procs": ["P"], "tp": "TP"}, "B": {"procs": ["P", "RC"], "tp": "TP"}},
           sources={"s": {"type": "A", "t": "t", "out": "so", "loc": [0, 0], "heur": "FIFO"}, "s2": {"type": "B", "t": "t", "out": "so2", "loc": [0, 3], "heur": "shortest_queue"}},
           sinks={"k": {"type": "A", "in": "si", "loc": [3, 0]}, "k2": {"type": "B", "in": "si2", "loc": [3, 3]}})
    b = {"time_models": lambda ID: build.tm_data(ID, tm[ID]), "processes": lambda ID: build.proc_data(ID, sp["procs"][ID]), "states": lambda ID: build.state_data(ID, sp["states"][ID]),
         "resources": lambda ID: build.res_data(ID, sp["res"][ID])}
    names = {"time_models": ["x", "y", "x2", "y2", "c"], "processes": ["P", "TP", "C", "RC", "L", "RW", "P2"], "states": ["B", "PB", "SU", "CH"],
             "resources": ["M", "tr", "N", "tr2"]}
    if kind in names:
        os_ = [json.loads(b[kind](n).model_dump_json()) for n in names[kind]]
    else:
        from prodsys.models import queue_data as q
        if kind == "queues":
            os_ = [json.loads(o.model_dump_json()) for o in (q.QueueData(ID="q", description="", capacity=1), q.StoreData(ID="s", description="", capacity=2, location=[1.0, 2.0]),
                                                             q.QueueData(ID="r", description="other", capacity=0), q.StoreData(ID="s", description="x", capacity=0, location=[5.0, 6.0]))]
        else:
            d = json.loads(build.build(base_for(kind)).model_dump_json())
            os_ = d[KINDS[kind]]
    out = {"x": [], "y": []}
    for i, o in enumerate(os_):
        for ID in ("x", "y"):
            if (i + (ID == "y")) % 2 == 0 or len(os_) <= 2:
                e = copy.deepcopy(o)
                e["ID"] = ID
                if "product_type" in e and kind == "products":
                    e["product_type"] = ID
                out[ID].append(e)
    return out


def base_for(kind):
    return S(tm={"t": 1.0, "ia": 2.0, "tr": {"dist": [60.0, 0.1]}}, procs={"P": {"t": "t"}, "P2": {"t": "t"}, "TP": {"t": "tr", "kind": "T"}},
             queues={q: 0 for q in ("in", "out", "so", "si", "so2", "si2")},
             res={"M": {"procs": ["P", "P2"], "loc": [1, 0], "in": "in", "out": "out"}, "tr": {"procs": ["TP"], "transport": True}},
             prods={"A": {"procs": ["P"], "tp": "TP"}, "B": {"procs": ["P2", "P"], "tp": "TP"}},
             sources={"s": {"type": "A", "t": "ia", "out": "so", "loc": [0, 0], "heur": "FIFO"}, "s2": {"type": "B", "t": "t", "out": "so2", "loc": [0, 3], "heur": "shortest_queue"}},
             sinks={"k": {"type": "A", "in": "si", "loc": [3, 0]}, "k2": {"type": "B", "in": "si2", "loc": [3, 3]}})


# ------------------------------------------------------------------ scenario
def scenario(n=0, obj=("cost",)):
    from prodsys.models import scenario_data as s
    c = dict(max_reconfiguration_cost=1000.0 + n, max_num_machines=5 + n, max_num_processes_per_machine=2, max_num_transport_resources=3, target_product_count={"A": 3 + n} if n else None)
    o = dict(transformations=["production_capacity"] if n else ["layout", "routing_logic"], machine_controllers=["FIFO"], transport_controllers=["SPT_transport"], routing_heuristics=["shortest_queue"],
             positions=[[1.0, float(n)], [2.0, 0.0]])
    i = dict(machine_cost=10.0 + n, transport_resource_cost=5.0, process_module_cost=1.0, selling_machine_cost=0.5, selling_transport_resource_cost=0.1, selling_process_module_cost=0.0,
             time_range=100 + n, maximum_breakdown_time=None)
    i["breakdown_cost"] = None
    sc = s.ScenarioData(constraints=s.ScenarioConstrainsData(**c), options=s.ScenarioOptionsData(**o), info=s.ScenarioInfoData(**{k: v for k, v in i.items() if k in s.ScenarioInfoData.model_fields}),
                        objectives=[s.Objective(name=x, weight=1.0) for x in obj])
    return json.loads(sc.model_dump_json())


SUP = ("cost", "throughput", "throughput_time", "WIP")


def scenario_reqs(p, a, parts, lists, singles, weights):
    url = f"/projects/{p}/adapters/{a}/scenario/"
    out = []

    def drop(m):
        m[p]["p"].pop(a, None)

    def put(doc):
        def eff(m):
            adap(m, p, a)["scenario_data"] = copy.deepcopy(doc)
            drop(m)
            return doc
        return eff

    def get(m):
        s = adap(m, p, a)["scenario_data"]
        if not s:
            raise Refuse()
        return s

    def part(k, v):
        def eff(m):
            s = get(m)
            s[k] = copy.deepcopy(v)
            drop(m)
            return s
        return eff

    def post_o(o):
        def eff(m):
            s = get(m)
            if o["name"] not in SUP or any(x["name"] == o["name"] for x in s["objectives"]):
                raise Refuse()
            s["objectives"].append(o)
            drop(m)
            return s
        return eff

    def put_o(o):
        def eff(m):
            s = get(m)
            if o["name"] not in SUP:
                raise Refuse()
            for i, x in enumerate(s["objectives"]):
                if x["name"] == o["name"]:
                    s["objectives"][i] = o
                    drop(m)
                    return s
            raise Refuse()
        return eff

    def del_o(n):
        def eff(m):
            s = get(m)
            for i, x in enumerate(s["objectives"]):
                if x["name"] == n:
                    s["objectives"].pop(i)
                    drop(m)
                    return s
            raise Refuse()
        return eff
    for n in (0, 1):
        d = scenario(n)
        if n == 0:
            out.append(Req(f"PUT {p}/{a} scenario {n}", "PUT", url, d, put(d)))
        for k in parts:
            out.append(Req(f"PUT {p}/{a} scenario/{k} {n}", "PUT", url + k, d[k], part(k, d[k])))
    for l in lists:
        v = [{"name": x, "weight": 1.0} for x in l]
        out.append(Req(f"PUT {p}/{a} objectives {l}", "PUT", url + "objectives", v, part("objectives", v)))
    for x in singles:
        for w in weights:
            o = {"name": x, "weight": w}
            out.append(Req(f"POST {p}/{a} objective {x} {w}", "POST", url + "objectives/objective", o, post_o(o)))
            out.append(Req(f"PUT {p}/{a} objective {x} {w}", "PUT", url + "objectives/objective", o, put_o(o)))
        out.append(Req(f"DELETE {p}/{a} objective {x}", "DELETE", url + f"objectives/objective/{x}", None, del_o(x)))
    return out


# ------------------------------------------------------------------ simulation
_ref = {}
_plot = {}  # performance -> post processor


def direct(doc, length, seed):
    """The performance of a stored system, computed without the web service."""
    doc = dict(doc, scenario_data=None)
    k = digest([doc, length, seed])
    if k not in _ref:
        from prodsys.adapters import JsonProductionSystemAdapter
        from prodsys.util.runner import Runner
        try:
            a = JsonProductionSystemAdapter(**copy.deepcopy(doc))
        except ValueError:  # an edit made the system inconsistent
            raise Skip()
        a.seed = seed
        r = Runner(adapter=a)
        try:
            r.initialize_simulation()
            r.run(length)
            _ref[k] = json.loads(r.get_performance_data().model_dump_json())
            _plot[digest(_ref[k])] = r.get_post_processor()
        except Exception as x:
            _ref[k] = None
    return _ref[k]


def sim_req(p, a, length, seed):
    def eff(m):
        d = adap(m, p, a)
        n = length
        if not n:
            n = d["scenario_data"]["info"]["time_range"] if d["scenario_data"] else 1440
        perf = direct(d, n, seed)
        d["seed"] = seed
        if perf is not None:
            m[p]["p"][a] = perf
        return ANY
    return Req(f"simulate {p}/{a} length {length} seed {seed}", "GET", f"/projects/{p}/adapters/{a}/simulate/?run_length={length}&seed={seed}", None, eff)


# ------------------------------------------------------------------ optimisation
HYPER = {"evolutionary": dict(seed=0, number_of_generations=2, population_size=4, mutation_rate=0.5, crossover_rate=0.3, number_of_seeds=1, number_of_processes=1),
         "annealing": dict(seed=0, Tmax=100, Tmin=1, steps=4, updates=1, number_of_seeds=1),
         "tabu": dict(seed=0, tabu_size=2, max_steps=2, max_score=500, number_of_seeds=1)}


class Solutions:
    """What an optimisation run left in the file system, read without the web service."""

    def __init__(self, p, a, doc):
        from prodsys.adapters import JsonProductionSystemAdapter
        from prodsys.optimization.util import get_weights
        d = f"data/{p}/{a}"
        self.url = f"/projects/{p}/adapters/{a}/optimize/"
        with open(d + "/optimization_results.json") as f:
            self.results = {}
            for g in json.load(f).values():
                self.results.update(g)
        base = JsonProductionSystemAdapter(**copy.deepcopy(doc))
        w = get_weights(base, "max")
        self.weights = w
        gain = {tuple(r["fitness"]): [x * y for x, y in zip(w, r["fitness"])] for r in self.results.values()}
        self.front = [v for v, g in gain.items() if not any(all(b >= a for a, b in zip(g, h)) and h != g for h in gain.values())]
        self.names = [o["name"] for o in doc["scenario_data"]["objectives"]]
        self.total = {s: sum(x * y for x, y in zip(w, r["fitness"])) for s, r in self.results.items()}
        self.docs = {}
        for s in self.results:
            fs = [x for x in sorted(os.listdir(d)) if x.endswith(f"_{s}.json")]
            o = JsonProductionSystemAdapter()
            o.read_data(f"{d}/{fs[0]}")
            self.docs[s] = json.loads(o.model_dump_json())
        best = max(self.total.values())
        self.best = {s for s, v in self.total.items() if abs(v - best) < 1e-9 * max(1, abs(best))}
        seen, self.pick = set(), []
        for s in self.results:  # solutions that differ
            k = digest({k: v for k, v in self.docs[s].items() if k != "ID"})
            if k not in seen:
                seen.add(k)
                self.pick.append(s)

    def read(self, app, m):
        if "a" not in m.get("p", {"a": ()})["a"]:
            for x in ("results", "best_solution", "pareto_front_performances"):
                st, b = app.req("GET", self.url + x)
                if not 400 <= st < 500:
                    return f"GET optimize/{x} of a missing system answers {st}"
            return None
        st, b = app.req("GET", self.url + "best_solution")
        if st != 200 or b not in self.best:
            return f"GET optimize/best_solution answers {st} {b}, the best is {sorted(self.best)[:2]} of {self.total}"
        st, b = app.req("GET", self.url + "results")
        if st != 200 or set(b["solutions"]) != set(self.results):
            return f"GET optimize/results answers {st} {str(b)[:80]}"
        for s, ks in b["solutions"].items():
            got = [(k["name"], k["value"]) for k in ks]
            if got != list(zip(self.names, self.results[s]["fitness"])):
                return f"GET optimize/results: {got} for {self.results[s]['fitness']}"
        for s in self.pick:
            st, b = app.req("GET", self.url + s)
            d = diff({k: v for k, v in nfa(b).items() if k != "scenario_data"}, {k: v for k, v in nfa(self.docs[s]).items() if k != "scenario_data"}) if st == 200 else ""
            if st != 200 or d:
                return f"GET optimize/<solution> answers {st}: {d}"
        for s in ("results", "zz"):
            st, b = app.req("GET", self.url + "zz")
            if not 400 <= st < 500:
                return f"GET optimize/zz (missing) answers {st}"
        return None


def register_req(sol, s, n):
    def eff(m):
        base = adap(m, "p", "a")
        if s not in sol.docs or s in m["p"]["a"]:
            raise Refuse()
        d = dict(copy.deepcopy(sol.docs[s]), ID=s, scenario_data=base["scenario_data"])
        m["p"]["a"][s] = d
        m["p"]["p"][s] = direct(d, d["scenario_data"]["info"]["time_range"], d["seed"])
        return ANY
    return Req(f"register solution {n}", "GET", sol.url + "register/" + s, None, eff)


def pareto_req(sol):
    """Registers one solution for every vector of objectives that no other one dominates."""
    def eff(m):
        from prodsys.optimization.optimization_analysis import get_pareto_solutions_from_result_files
        base = adap(m, "p", "a")
        ids = get_pareto_solutions_from_result_files("data/p/a/optimization_results.json", sol.weights)
        vec = [tuple(sol.results[s]["fitness"]) for s in ids]
        if sorted(vec) != sorted(sol.front):
            raise AssertionError(f"pareto solutions {vec}, not dominated are {sorted(sol.front)}")
        if any(s in m["p"]["a"] for s in ids):
            raise Refuse()
        for s in ids:
            d = dict(copy.deepcopy(sol.docs[s]), ID=s, scenario_data=base["scenario_data"])
            m["p"]["a"][s] = d
            m["p"]["p"][s] = direct(d, d["scenario_data"]["info"]["time_range"], d["seed"])
        return ANY
    return Req("register the pareto front", "GET", sol.url + "pareto_front_performances", None, eff)


def opt_doc(objectives=None):
    sp = sysdoc("a", 1)
    sc = scenario(0, ("cost", "throughput", "WIP"))
    sc["constraints"].update(max_num_machines=3, max_reconfiguration_cost=100000.0)
    sc["options"].update(transformations=["production_capacity", "transport_capacity", "sequencing_logic"], positions=[[1.0, 0.0], [1.0, 2.0], [2.0, 4.0]],
                         machine_controllers=["FIFO", "LIFO"], transport_controllers=["FIFO", "SPT_transport"])
    sc["info"]["time_range"] = 20
    if objectives:
        sc["objectives"] = [{"name": n, "weight": w} for n, w in objectives]
    return dict(sp, scenario_data=sc)


def optimise(res, task, tier):
    doc = opt_doc(task.get("objectives"))
    init = [Req("POST project p", "POST", "/projects/", {"ID": "p", "adapters": [], "performances": {}}, lambda m: m.__setitem__("p", {"a": {}, "p": {}})), post_a("p", "a", doc)]

    def prepare(app, m):
        u = "/projects/p/adapters/a/optimize/"
        for x in ("results", "best_solution", "zz", "pareto_front_performances"):
            st, b = app.req("GET", u + x)
            if not 400 <= st < 500:
                res.violate("refuse", f"GET optimize/{x} before an optimisation answers {st}")
                return None
        st, b = app.req("POST", u, HYPER[task["algo"]])
        if st != 200:
            res.violate("status", f"the optimisation answers {st} {str(b)[:100]}")
            return None
        sol = Solutions("p", "a", doc)
        # a run may find its solutions in any order: each of them in turn is the last one
        file = "data/p/a/optimization_results.json"
        with open(file) as f:
            text = f.read()
        for s in list(sol.results)[:8]:
            data = json.loads(text)
            for g in data.values():
                if s in g:
                    g[s] = g.pop(s)
            with open(file, "w") as f:
                json.dump(data, f)
            st, b = app.req("GET", u + "best_solution")
            if st != 200 or b not in sol.best:
                res.violate("read", f"GET optimize/best_solution answers {st} {b}, the best is {sorted(sol.best)[:2]} of {sol.total} when {s} is the last one found")
                break
        with open(file, "w") as f:
            f.write(text)
        al = [register_req(sol, s, n) for n, s in enumerate(sol.pick[:3 if tier == "thorough" else 2])] + [register_req(sol, "zz", "zz"), pareto_req(sol), sim_req("p", "a", 15, 3), del_a("p", "a"), post_a("p", "a", doc)]
        al += [Req("DELETE registered 0", "DELETE", f"/projects/p/adapters/{sol.pick[0]}", None, del_a("p", sol.pick[0]).eff)]
        res["samples"].append({"algorithm": task["algo"], "solutions": len(sol.results)})
        return al, dict(aids=("a",) + tuple(dict.fromkeys(sol.pick[:3] + [s for s in sol.results if tuple(sol.results[s]["fitness"]) in sol.front])) + ("zz",), kinds=(), ids=("p",), more=sol.read)
    search(res, init, {}, None, task["depth"], dict(kinds=(), ids=("p",)), prepare=prepare)


# ------------------------------------------------------------------ search
def noseed(doc):
    """The seed under which a stored system was last simulated is not compared."""
    if isinstance(doc, list):
        return [noseed(x) for x in doc]
    if isinstance(doc, dict):
        return {k: noseed(v) for k, v in doc.items() if not (k == "seed" and "process_data" in doc)}
    return doc


def cmp(a, b):
    return diff(noseed(a), noseed(b))


def read_all(app, m, ids=("p", "q"), aids=("a", "b"), kinds=tuple(KINDS), missing="zz", plots=False, more=None):
    """Compares everything that can be read with the reference. -> message or None."""
    st, b = app.req("GET", "/projects/")
    if st != 200:
        return f"GET /projects/ answers {st}"
    d = cmp(srt([nfp(x) for x in b]), ref_projects(m))
    if d:
        return f"GET /projects/: {d}"
    for p in ids:
        st, b = app.req("GET", f"/projects/{p}")
        if p not in m:
            if not 400 <= st < 500:
                return f"GET missing project {p} answers {st}"
            st, b = app.req("GET", f"/projects/{p}/adapters/")
            if not 400 <= st < 500:
                return f"GET adapters of the missing project {p} answers {st}"
            continue
        if st != 200:
            return f"GET project {p} answers {st}"
        d = cmp(nfp(b), {"ID": p, "adapters": srt([nfa(a) for a in m[p]["a"].values()]), "performances": m[p]["p"]})
        if d:
            return f"GET project {p}: {d}"
        st, b = app.req("GET", f"/projects/{p}/adapters/")
        if st != 200:
            return f"GET adapters of {p} answers {st}"
        if isinstance(b, dict):
            b = list(b.values())
        d = cmp(srt([nfa(a) for a in b]), srt([nfa(a) for a in m[p]["a"].values()]))
        if d:
            return f"GET adapters of {p}: {d}"
        for a in aids:
            u = f"/projects/{p}/adapters/{a}"
            st, b = app.req("GET", u)
            if a not in m[p]["a"]:
                for x in ("", "/performance/kpis", "/scenario/", "/simulate/progress") + tuple("/" + k + "/" for k in kinds):
                    st, b = app.req("GET", u + x)
                    if not 400 <= st < 500:
                        return f"GET {x or 'adapter'} of the missing adapter {p}/{a} answers {st}"
                continue
            doc = m[p]["a"][a]
            if st != 200:
                return f"GET adapter {p}/{a} answers {st}"
            d = cmp(nfa(b), nfa(doc))
            if d:
                return f"GET adapter {p}/{a}: {d}"
            for k in kinds:
                st, b = app.req("GET", f"{u}/{k}/")
                if st != 200:
                    return f"GET {p}/{a}/{k} answers {st}"
                d = diff(srt(b), srt(doc[KINDS[k]]))
                if d:
                    return f"GET {p}/{a}/{k}: {d}"
                for o in doc[KINDS[k]]:
                    st, b = app.req("GET", f"{u}/{k}/{o['ID']}")
                    if st != 200 or diff(b, o):
                        return f"GET {p}/{a}/{k}/{o['ID']} answers {st}: {diff(b, o)}"
                st, b = app.req("GET", f"{u}/{k}/{missing}")
                if not 400 <= st < 500:
                    return f"GET {p}/{a}/{k}/{missing} (missing) answers {st}"
                if k == "resources":
                    for x, cl in (("production_resources", "input_queues"), ("transport_resources", None)):
                        st, b = app.req("GET", f"{u}/{k}/{x}")
                        e = [o for o in doc["resource_data"] if ("input_queues" in o) == (cl is not None)]
                        if st != 200 or diff(srt(b), srt(e)):
                            return f"GET {p}/{a}/{k}/{x} answers {st}: {diff(srt(b), srt(e))}"
            e = doc["scenario_data"]
            for x, v in [("", e)] + [(y, e and e[y]) for y in ("constraints", "options", "info", "objectives")]:
                st, b = app.req("GET", f"{u}/scenario/{x}")
                if x == "constraints" and st == 405:
                    st, b = app.req("GET", f"{u}/scenario/contraints")
                if e is None:
                    if not 400 <= st < 500:
                        return f"GET {p}/{a}/scenario/{x} (missing) answers {st}"
                elif st != 200 or diff(b, v):
                    return f"GET {p}/{a}/scenario/{x} answers {st}: {diff(b, v)}"
            d = read_perf(app, u, m[p]["p"].get(a)) or plots and read_plot(app, u, m[p]["p"].get(a))
            if d:
                return f"{p}/{a}: {d}"
    return more and more(app, m)


CHARTS = {  # endpoint -> function and its extra parameters, as query or as body
    "throughput_time_distribution": ("plot_throughput_time_distribution", {}),
    "line_balance_kpis": ("plot_line_balance_kpis", {}),
    "oee": ("plot_oee", {}),
    "production_flow_rate_per_product": ("plot_production_flow_rate_per_product", {}),
    "resource_utilization": ("plot_boxplot_resource_utilization", {}),
    "throughput_time_over_time": ("plot_throughput_time_over_time", {}),
    "time_per_state_of_resources": ("plot_time_per_state_of_resources", {}),
    "time_per_state_of_resources?normalized=false": ("plot_time_per_state_of_resources", {"normalized": False}),
    "util_WIP_resource": ("plot_util_WIP_resource", {}),
    "util_WIP_resource?normalized=false": ("plot_util_WIP_resource", {"normalized": False}),
    "transport_utilization_over_time": ("plot_transport_utilization_over_time", {"transport_resource_names": None}),
    "WIP_with_range": ("plot_WIP_with_range", {}),
    "WIP": ("plot_WIP", {}),
    "WIP_per_resource": ("plot_WIP_per_resource", {}),
    "auxiliary_WIP": ("plot_auxiliary_WIP", {}),
}
ALWAYS = ("throughput_time_distribution", "time_per_state_of_resources", "WIP")
_IDS = re.compile(r"[0-9a-f]{8}-[0-9a-f-]{27}")
_drawn = {}  # stored performance, chart -> its page, or None if it cannot be drawn
_asked = set()  # system, stored performance: all the charts were compared


def read_plot(app, u, perf):
    """Some charts in every state, all of them once for each system and stored performance."""
    from prodsys.util import kpi_visualization
    k = perf and digest(perf)
    all_of = (u, k) not in _asked
    _asked.add((u, k))
    for n, (fn, kw) in CHARTS.items():
        if n not in ALWAYS and not all_of:
            continue
        pp = k and _plot[k]
        vehicles = pp and sorted(r for r in pp.df_resource_states["Resource"].unique() if "TR" in r or r == "V") or ["T1"]
        more = {"json": vehicles} if "transport_resource_names" in kw else {}
        st, b = app.req("GET", f"{u}/plots/{n}", more.get("json"))
        if perf is None:
            if st < 400:
                return f"plots/{n} without a simulation of the stored system answers {st}"
            continue
        if (k, n) not in _drawn:
            try:
                _drawn[k, n] = _IDS.sub("", getattr(kpi_visualization, fn)(pp, return_html=True, **dict(kw, **({"transport_resource_names": vehicles} if more else {}))))
            except Exception:  # no such data: the service must not answer with a page
                _drawn[k, n] = None
        e = _drawn[k, n]
        if e is None:
            if st < 400:
                return f"plots/{n} cannot be drawn for this system, answers {st}"
        elif st != 200 or _IDS.sub("", b) != e:
            return f"plots/{n} answers {st} and does not show this system"
    return None


def read_perf(app, u, perf):
    st, b = app.req("GET", u + "/performance/kpis")
    st2, b2 = app.req("GET", u + "/performance/events?num_events=0&offset=0")
    st3, b3 = app.req("GET", u + "/performance/kpis/output")
    if perf is None:
        for n, s in (("kpis", st), ("events", st2), ("kpis/output", st3)):
            if not 400 <= s < 500:
                return f"performance/{n} without a simulation of the stored system answers {s}"
        return None
    if st != 200 or diff(b, perf["kpis"]):
        return f"performance/kpis answers {st}: {st == 200 and diff(b, perf['kpis'])}"
    names = {k["name"] for k in perf["kpis"]}
    from prodsys.models.performance_indicators import KPIEnum
    for n in [x.value for x in KPIEnum]:
        st, b = app.req("GET", f"{u}/performance/kpis/{n}")
        e = [k for k in perf["kpis"] if k["name"] == n]
        if e and (st != 200 or diff(b, e)):
            return f"performance/kpis/{n} answers {st}: {st == 200 and diff(b, e)}"
        if not e and not 400 <= st < 500:
            return f"performance/kpis/{n} (not there) answers {st}"
    ev = perf["event_log"]
    for off, num in ((0, len(ev)), (0, 1), (1, 3), (len(ev) - 1, 1), (len(ev), 0), (len(ev), 1), (0, len(ev) + 1)):
        st, b = app.req("GET", f"{u}/performance/events?num_events={num}&offset={off}")
        if off + num > len(ev):
            if not 400 <= st < 500:
                return f"performance/events beyond the end answers {st}"
        elif st != 200 or diff(b, ev[off:off + num]):
            return f"performance/events {off}+{num} answers {st}: {st == 200 and diff(b, ev[off:off + num])}"
    return None


def search(res, init, m0, alphabet, depth, reads, limit=4000, prepare=None):
    """Breadth first over all sequences of requests, the stored state deduplicated."""
    app = App()
    try:
        app.reset()
        m = copy.deepcopy(m0)
        for r in init:
            st, b = app.req(r.method, r.path, r.body)
            r.eff(m)
            if st != 200:
                res.violate("status", f"{r.name} answers {st} instead of being carried out", path=[r.name])
                return
        d = read_all(app, m, **reads)
        if d:
            res.violate("read", f"initially: {d}", path=[])
            return
        if prepare:
            r = prepare(app, m)
            if r is None:
                return
            alphabet, reads = r
            d = read_all(app, m, **reads)
            if d:
                res.violate("read", f"initially: {d}", path=[])
                return
        todo = collections.deque([(app.save(), m, [], 0)])
        seen = {app.key()}
        res["states"] |= {int(x, 16) for x in seen}
        while todo:
            snap, m, path, k = todo.popleft()
            if depth is not None and k >= depth:
                continue
            clean = False
            for r in alphabet:
                if len(res["violations"]) >= 6:
                    return
                if not clean:
                    app.load(snap)
                    before = app.key()
                m2 = copy.deepcopy(m)
                try:
                    exp = r.eff(m2)
                    ok = True
                except Skip:
                    continue
                except Refuse:
                    m2, ok, exp = m, False, None
                except AssertionError as e:
                    res.violate("pareto", f"{r.name}: {e}", path=path + [r.name])
                    return
                st, b = app.req(r.method, r.path, r.body)
                res["runs"] += 1
                res["transitions"] += 1
                key = app.key()
                clean = key == before
                res["nontrivial"] += (key != before) or not ok
                hist = path + [r.name]
                res["outcomes"].add(f"{r.name.split()[0]} {st}")
                if ok and st >= 300:
                    res.violate("status", f"after {path}: {r.name} answers {st} {str(b)[:120]}", path=hist)
                    continue
                if not ok and not 400 <= st < 500:
                    res.violate("refuse", f"after {path}: {r.name} is not refused: {st}", path=hist)
                    continue
                if ok and exp is not ANY:
                    d = cmp(nfa(b) if "adapters" not in (b if isinstance(b, dict) else {}) else nfp(b), nfa(exp) if not (isinstance(exp, dict) and "adapters" in exp) else nfp(exp))
                    if d:
                        res.violate("answer", f"after {path}: {r.name}: answer {d}", path=hist)
                        continue
                if key in seen and clean and not ok:
                    continue
                new = key not in seen
                if new:
                    d = read_all(app, m2, **reads)
                else:
                    st, b = app.req("GET", "/projects/")
                    d = f"GET /projects/ answers {st}" if st != 200 else cmp(srt([nfp(x) for x in b]), ref_projects(m2))
                if d:
                    res.violate("read", f"after {hist}: {d}", path=hist)
                    continue
                if new:
                    seen.add(key)
                    res["states"].add(int(key, 16))
                    if len(seen) > limit:
                        res["capped"] = 1
                        return
                    todo.append((app.save(), m2, hist, k + 1))
                    if len(res["samples"]) < 1 and k >= 2:
                        res["samples"].append({"requests": hist})
    finally:
        app.close()


# ------------------------------------------------------------------ tasks
def tasks(tier):
    th = tier == "thorough"
    out = [dict(name="projects", kind="projects"), dict(name="adapters/one", kind="adapters", ids=["p"]), dict(name="adapters/two", kind="adapters", ids=["p", "q"], depth=None if th else 3)]
    for k in KINDS:
        out.append(dict(name="objects/" + k, kind="objects", obj=k, depth=None if th else 3))
    for k in ("constraints", "options", "info"):
        out.append(dict(name="scenario/" + k, kind="scenario", parts=[k], depth=None))
    out.append(dict(name="scenario/objectives", kind="scenario", parts=[], depth=None if th else 4))
    for s in ("seeds", "systems", "parts", "projects"):
        out.append(dict(name="simulate/" + s, kind="simulate", variant=s, depth=5 if th else 3))
    for x in tuple(KINDS) + ("scenario",):
        out.append(dict(name="stale/" + x, kind="stale", obj=x, depth=3 if th else 2))
    for a in HYPER:
        out.append(dict(name="optimise/" + a, kind="optimise", algo=a, depth=4 if th else 3))
        out.append(dict(name=f"optimise/{a}/penalties", kind="optimise", algo=a, depth=2 if th else 1, objectives=[["throughput_time", 2.0], ["cost", 0.5], ["WIP", 1.0]]))
    return out


def run_task(task, tier):
    res = Result()
    th = tier == "thorough"
    k = task["kind"]
    docs = {"a": [sysdoc("a", 1), sysdoc("a", 2)], "b": [sysdoc("b", 1), sysdoc("b", 3)]}
    mini = {x: [empty(x), sysdoc(x, 2)] for x in ("a", "b")}
    P = lambda i: Req("init project " + i, "POST", "/projects/", {"ID": i, "adapters": [], "performances": {}}, lambda m: m.__setitem__(i, {"a": {}, "p": {}}))
    if k == "projects":
        al = projects_alphabet(docs, adapters=False)
        al += [post_a("p", "a", docs["a"][1]), del_a("q", "a"), post_a("q", "b", docs["b"][0])]
        search(res, [], {}, al, None, dict(kinds=()))
    elif k == "adapters":
        al = projects_alphabet(mini, ids=task["ids"], projects=False)
        if len(task["ids"]) == 2:
            al = [r for r in al if not ("/b" in r.name and "content 0" in r.name)]
        search(res, [P(i) for i in task["ids"]], {}, al, task.get("depth"), dict(kinds=("time_models",)))
    elif k == "objects":
        o = task["obj"]
        bs = objects(o)
        init = [P("p"), P("q"), post_a("p", "a", empty("a")), post_a("p", "b", empty("b")), post_a("q", "a", empty("a"))]
        init += obj_reqs(o, "p", "b", {"x": bs["x"][:1]})[:1] + obj_reqs(o, "q", "a", {"x": bs["x"][:1]})[:1] + obj_reqs(o, "q", "a", {"y": bs["y"][:1]})[:1]
        al = obj_reqs(o, "p", "a", bs if th else {x: v[:2] for x, v in bs.items()})
        al += [r for r in obj_reqs(o, "p", "zz", {"x": bs["x"][:1]})] + [r for r in obj_reqs(o, "zz", "a", {"x": bs["x"][:1]})]
        al += [r for r in obj_reqs(o, "p", "b", {"y": bs["y"][:1]}) if r.name.startswith(("POST", "DELETE"))]
        search(res, init, {}, al, task["depth"], dict(kinds=(o,)))
    elif k == "scenario":
        init = [P("p"), post_a("p", "a", empty("a")), post_a("p", "b", empty("b"))]
        if task["parts"]:
            al = scenario_reqs("p", "a", task["parts"], [["cost"], []], ["cost"], [1.0]) + scenario_reqs("p", "b", task["parts"], [], [], [])[:2]
        else:
            al = scenario_reqs("p", "a", [], [[], ["throughput_time", "cost"]], ["cost", "throughput", "throughput_time", "WIP", "output"], [1.0, 2.0])
            if not th:
                al = [r for r in al if not ("WIP" in r.name and "2.0" in r.name)]
        al += [r for r in scenario_reqs("p", "zz", task["parts"], [["cost"]], ["cost"], [1.0])]
        search(res, init, {}, al, task["depth"], dict(kinds=()))
    elif k == "stale":
        # every single edit of a simulated system: its results are those of another system
        x = task["obj"]
        d = sysdoc("a", 1)
        init = [P("p"), post_a("p", "a", d), sim_req("p", "a", 12, 0)]
        if x == "scenario":
            init.insert(2, Req("scenario", "PUT", "/projects/p/adapters/a/scenario/", scenario(1), lambda m: m["p"]["a"]["a"].__setitem__("scenario_data", scenario(1))))
            al = scenario_reqs("p", "a", ["constraints", "options", "info"], [["cost"]], ["cost", "WIP"], [2.0])
        else:
            have = d[KINDS[x]]
            bs = {o["ID"]: [dict(o, description="changed")] for o in have[:2]}
            bs["new"] = [dict(have[0], ID="new", **({"product_type": "new"} if x == "products" else {}))] if have else []
            if not have:
                bs = objects(x)
                bs = {"x": bs["x"][:1], "y": bs["y"][:1]}
            al = obj_reqs(x, "p", "a", bs)
        search(res, init, {}, al + [sim_req("p", "a", 12, 0)], task["depth"], dict(ids=("p",), aids=("a",), kinds=()))
    elif k == "optimise":
        optimise(res, task, tier)
    elif k == "simulate":
        v = task["variant"]
        d1, d2 = sysdoc("a", 1, tm={"t": {"fn": ["exponential", 1.0, 0.0]}, "ia": 2.0, "tr": {"dist": [60.0, 0.1]}}), sysdoc("a", 3)
        e1 = sysdoc("b", 2)
        ids = ["p"]
        init = [P("p"), post_a("p", "a", d1)]
        if v == "seeds":
            al = [sim_req("p", "a", n, s) for n in (10, 20) for s in (0, 1)] + [put_a("p", "a", "a", d2, 1), put_a("p", "a", "a", d1, 0), del_a("p", "a"), post_a("p", "a", d1)]
        elif v == "systems":
            al = [sim_req("p", x, 12, 0) for x in ("a", "b")] + [post_a("p", "b", e1), put_a("p", "a", "b", e1, 1), put_a("p", "b", "a", d2, 1), del_a("p", "a"), del_a("p", "b")]
        elif v == "parts":
            d1 = sysdoc("a", 1, tm={"t": {"fn": ["exponential", 1.0, 0.0]}, "ia": 45.0, "tr": {"dist": [60.0, 0.1]}})
            init[-1] = post_a("p", "a", d1)
            tm = [o for o in d1["time_model_data"] if o["ID"] == "t"][0]
            tm2 = [o for o in d2["time_model_data"] if o["ID"] == "t"][0]
            pr = [o for o in d1["process_data"] if o["ID"] == "P"][0]
            al = [sim_req("p", "a", 250, 1), sim_req("p", "a", 0, 0)]
            al += [r for r in obj_reqs("time_models", "p", "a", {"t": [tm, tm2]}) if r.name.startswith("PUT p/a/time_models/t ")]
            al += [r for r in obj_reqs("processes", "p", "a", {"P": [dict(pr, description="new")]}) if r.name.startswith("PUT p/a/processes/P ")]
            al += scenario_reqs("p", "a", ["info"], [], [], [])
        else:
            ids = ["p", "q"]
            init += [P("q"), post_a("q", "a", d2)]
            al = [sim_req(p, "a", n, 0) for p in ids for n in (12, 15)] + [sim_req("zz", "a", 10, 0), sim_req("p", "zz", 10, 0)]
            al += [Req("DELETE project p", "DELETE", "/projects/p", None, lambda m: (proj(m, "p"), m.pop("p"), ANY)[2]), P("p"), post_a("p", "a", d1)]
            al[-2].eff = lambda m: (_ for _ in ()).throw(Refuse()) if "p" in m else (m.__setitem__("p", {"a": {}, "p": {}}), ANY)[1]
        search(res, init, {}, al, task["depth"], dict(ids=tuple(ids), kinds=(), plots=v in ("systems", "projects", "seeds")))
    return res
