"""P23: the fitness the optimisers report is the performance of the configuration they report."""
import contextlib
import glob
import io
import itertools
import json
import os
import shutil
import tempfile
import time

from .. import build, opt
from ..explore import Chooser, explore, own_rng
from ..harness import Result
from ..trace import created, finished
from .. import simrun
from .p21 import search

LEVEL = "model_checking"
RULE = ("(1) every configuration that the mutations reach from the base systems is evaluated with 1-3 seeds and every choice of objectives and compared with separate simulations; "
        "(2) every history of up to the stated number of evaluations over a set of related configurations (copies under other names, other policies, positions, modules), so that every "
        "reuse of an earlier result is compared with a fresh evaluation; (3) complete runs of the three optimisers on small budgets, every sequence of random answers with a bounded "
        "number of deviations: all files and entries they write are compared with a fresh evaluation. Non-trivial: more than one distinct fitness occurs.")
ASSUMPTIONS = ["the mean WIP is the mean of the KPI tables (P16)", "objective weights are not zero"]

KPIS = ("throughput", "cost", "WIP", "throughput_time")


def tasks(tier):
    th = tier == "thorough"
    out = []
    bs = opt.bases(tier)
    for n in ("plain", "tight", "one", "setup", "breakdown", "compound", "aux/2", "types", "dict-cost") if not th else [b for b in bs if not b.startswith("only/")]:
        out.append(dict(name="eval/" + n, kind="eval", spec=bs[n]))
    for n in bs:
        if not n.startswith("only/") or th:
            out.append(dict(name="reuse/" + n, kind="reuse", spec=bs[n]))
    rnd = opt.base(machines=("R1",), plan=("P1",), transformations=["layout", "sequencing_logic"])
    rnd["tm"]["tp_P1"] = {"fn": ["exponential", 2.0, 0.0, 50]}
    out.append(dict(name="eval/random-times", kind="eval", spec=rnd))
    for n, sp in related().items():
        for k in range(8 if th else 4):
            out.append(dict(name=f"history/{n}/{k}", kind="history", spec=sp, part=k, parts=8 if th else 4))
    for alg in ("ea", "sa", "tabu"):
        for n in (("one", "types", "plain") if th else ("one",)):
            sp = small() if n == "one" else bs[n]
            for k in range(8 if th else 2):
                out.append(dict(name=f"{alg}/{n}/{k}", kind=alg, spec=sp, part=k, parts=8 if th else 2))
        for mode in ("file", "init", "none", "full") if alg != "ea" else ("file", "init", "full"):
            out.append(dict(name=f"{alg}/{mode}", kind=alg, mode=mode, spec=small(), part=0, parts=1))
    return out


def small():
    s = opt.base(machines=("R1",), plan=("P1",))
    s["scenario"]["constraints"].update(max_num_machines=2, max_num_processes_per_machine=1, max_num_transport_resources=2)
    return s


def related():
    """Systems in which policies, positions and modules change the performance."""
    out = {}
    s = opt.base(machines=("R1",), plan=("P1",))
    s["tm"]["tp_P1"] = 4
    s["tm"]["arrB"] = {"sched": [2, 3, 5], "abs": True}
    s["tm"]["tp_P2"] = 1
    s["procs"]["P2"] = {"t": "tp_P2"}
    s["res"]["R1"].update(procs=["P1", "P2"], caps=[1, 1])
    s["prods"]["B"] = {"procs": ["P2"], "tp": "TP"}
    s["queues"].update(srcB=0, snkB=0)
    s["sources"]["SRCB"] = {"loc": [0, 6], "type": "B", "t": "arrB", "heur": "FIFO", "out": "srcB"}
    s["sinks"]["SNKB"] = {"loc": [11, 6], "type": "B", "in": "snkB"}
    s["scenario"]["constraints"].update(max_num_machines=3)
    out["policies"] = s
    t = json.loads(json.dumps(s))
    t["tm"]["tt"] = {"dist": [2.0, 0.1]}
    t["res"]["R2"] = {"loc": [5, 8], "procs": ["P1"], "caps": [1], "cap": 1, "pol": "FIFO", "in": "R2_in", "out": "R2_out"}
    t["queues"].update(R2_in=0, R2_out=0)
    out["distances"] = t
    return out


def variants(spec):
    """Related configurations of one system."""
    def mk(f, ID):
        a = build.build(spec)
        f(a)
        a.ID = ID
        return a

    def pol(rid, p):
        def f(a):
            next(r for r in a.resource_data if r.ID == rid).control_policy = p
        return f

    def heur(h):
        def f(a):
            for s in a.source_data:
                s.routing_heuristic = h
        return f

    def move(rid, loc):
        def f(a):
            r = next(r for r in a.resource_data if r.ID == rid)
            r.location = r.input_location = r.output_location = list(loc)
        return f

    def rename(a):
        for r in a.resource_data:
            if r.ID == "R1":
                r.ID = "MX"

    def drop(a):
        r = next(r for r in a.resource_data if r.ID == "R1")
        r.process_ids, r.process_capacities = r.process_ids[:1], r.process_capacities[:1]

    def second(a):
        r = next(r for r in a.resource_data if r.ID == "T1").model_copy(deep=True)
        r.ID = "T2"
        a.resource_data = a.resource_data + [r]
    v = [mk(lambda a: None, "V0"), mk(lambda a: None, "V1"), mk(pol("R1", "SPT"), "V2"), mk(pol("R1", "LIFO"), "V3"), mk(pol("T1", "SPT_transport"), "V4"),
         mk(heur("shortest_queue"), "V5"), mk(rename, "V6"), mk(move("R1", (5.0, 4.0)), "V7"), mk(drop, "V8"), mk(second, "V9")]
    return v


# ------------------------------------------------------------------ the reference
def fresh(a, b0, seeds):
    """The fitness of a configuration from separate simulations."""
    from prodsys.util.runner import Runner
    from prodsys.util.post_processing import PostProcessor
    names = [getattr(o.name, "value", o.name) for o in b0.scenario_data.objectives]
    if opt.acceptable(a, b0):
        w = weights(b0)
        return [-100000 / x for x in w]
    rows = []
    for s in range(seeds):
        c = a.model_copy(deep=True)
        c.seed = s
        r = Runner(adapter=c)
        r.initialize_simulation()
        r.run(b0.scenario_data.info.time_range)
        tr = type("T", (), {})()
        tr.log = simrun.norm_log(r.event_logger.event_data)
        fin = {p: t for t, p, _ in finished(tr)}
        cre = {p: t for t, p, _ in created(tr)}
        per = {}
        for p, t in fin.items():
            per.setdefault(p.rsplit("_", 1)[0], []).append(t - cre[p])
        row = []
        for n in names:
            if n == "throughput":
                row.append(float(len(fin)))
            elif n == "throughput_time":
                ms = [sum(x) / len(x) for x in per.values()]
                row.append(sum(ms) / len(ms) if ms else 100000.0)
            elif n == "cost":
                row.append(opt.cost(a, b0))
            elif n == "WIP":
                pp = PostProcessor(df_raw=r.event_logger.get_data_as_dataframe())
                row.append(sum(x for k, x in pp.df_aggregated_WIP.items() if k != "Total"))
            else:
                raise KeyError(n)
        rows.append(row)
    return [sum(x) / len(x) for x in zip(*rows)]


def weights(b0, direction="max"):
    goal = {"throughput": "max", "cost": "min", "WIP": "min", "throughput_time": "min"}
    return [o.weight * (1 if goal[getattr(o.name, "value", o.name)] == direction else -1) for o in b0.scenario_data.objectives]


def close(x, y):
    return len(x) == len(y) and all(abs(a - b) <= 1e-9 * max(1, abs(a), abs(b)) for a, b in zip(x, y))


# ------------------------------------------------------------------ the parts
def evals(res, task, tier):
    from prodsys.optimization.optimization import evaluate
    from prodsys.models import scenario_data as sd
    b0 = build.build(task["spec"])
    fits = set()
    sets = [KPIS, ("throughput_time", "throughput"), ("WIP",), ("cost", "throughput")]
    for n, (c, p) in enumerate(search(task["spec"], tier, depth=1 if tier == "quick" else 2, limit=40 if tier == "quick" else 250)):
        for i, ks in enumerate(sets if n % 4 == 0 else sets[:1]):
            obj = [sd.Objective(name=k, weight=1.0 + j) for j, k in enumerate(ks)]
            for a in (c, b0):
                a.scenario_data = a.scenario_data.model_copy(deep=True)
                a.scenario_data.objectives = obj
            seeds = 1 + (n + i) % 3
            before = opt.canon(c)
            sd0 = {"current_generation": "0", "hashes": {}}
            res["runs"] += 1
            res["transitions"] += seeds
            try:
                got = evaluate(b0, sd0, {"0": {}}, seeds, "", [c])
            except Exception as e:
                res.violate("evaluate-raises", f"{type(e).__name__}: {e}", path=p)
                continue
            want = fresh(c, b0, seeds)
            if not close(list(got), want):
                res.violate("fitness", f"{ks}, {seeds} seeds: {got}, separate simulations give {want}", path=p)
            if opt.canon(c) != before:
                res.violate("evaluate-changes", "the evaluation changes the configuration", path=p)
            fits.add(tuple(round(x, 6) for x in want))
            res["states"].add(hash((opt.canon(c), ks, seeds)))
    res["nontrivial"] += len(fits) > 1
    res["samples"].append({"base": task["name"], "distinct fitness": len(fits)})


def history(res, task, tier):
    from prodsys.optimization.optimization import evaluate
    from prodsys.optimization.util import document_individual
    b0 = build.build(task["spec"])
    vs = variants(task["spec"])
    ref = [fresh(v, b0, 1) for v in vs]
    folder = tempfile.mkdtemp(prefix="mc_opt_")
    try:
        # with one repetition: every pair is evaluated in both orders and after itself
        seqs = list(itertools.product(range(len(vs)), repeat=2))
        if tier == "thorough":
            seqs += list(itertools.permutations(range(len(vs)), 3))
        else:
            seqs += list(itertools.combinations(range(len(vs)), 3))
        for k, seq in enumerate(seqs):
            if k % task["parts"] == task["part"]:
                run_history(res, seq, vs, ref, b0, evaluate, document_individual, folder)
    finally:
        shutil.rmtree(folder)
    res["nontrivial"] += len({tuple(r) for r in ref}) > 1
    res["samples"].append({"base": task["name"], "fitness of the variants": ref})


def reuse(res, task, tier):
    """Which of the reached configurations would get the result of another one?"""
    from prodsys.optimization.optimization import evaluate
    from prodsys.optimization.util import document_individual
    b0 = build.build(task["spec"])
    folder = tempfile.mkdtemp(prefix="mc_opt_")
    sd0, perf, seen = {"current_generation": "0", "hashes": {}}, {"0": {}}, []
    same = 0
    try:
        for n, (c, p) in enumerate(search(task["spec"], tier, limit=400 if tier == "quick" else 4000)):
            c = c.model_copy(deep=True)
            c.ID = f"C{n}"
            size = len(sd0["hashes"])
            res["runs"] += 1
            res["transitions"] += 1
            document_individual(sd0, folder, [c])
            if len(sd0["hashes"]) == size:
                same += 1
                i = int(evaluate(b0, sd0, perf, 1, "", [c])[0]) - 10 ** 6
                x, y = fresh(c, b0, 1), fresh(seen[i], b0, 1)
                if not close(x, y):
                    res.violate("reused-fitness", f"a configuration with fitness {x} gets the result {y} of another one", path=p)
            perf["0"][c.ID] = {"fitness": [float(10 ** 6 + n)], "agg_fitness": 0, "time_stamp": 0, "hash": ""}
            seen.append(c)
            res["states"].add(hash(opt.canon(c)))
    finally:
        shutil.rmtree(folder)
    res["nontrivial"] += len(sd0["hashes"]) > 1
    res["samples"].append({"base": task["name"], "configurations": len(seen), "different results": len(sd0["hashes"]), "reused": same})


def run_history(res, seq, vs, ref, b0, evaluate, document, folder):
    sd0, perf = {"current_generation": "0", "hashes": {}}, {}
    res["runs"] += 1
    for g, i in enumerate(seq):
        c = vs[i].model_copy(deep=True)
        c.ID = f"{c.ID}_{g}"
        sd0["current_generation"] = str(g)
        perf[str(g)] = {}
        res["transitions"] += 1
        try:
            got = evaluate(b0, sd0, perf, 1, "", [c])
            document(sd0, folder, [c])
        except Exception as e:
            res.violate("history-raises", f"{type(e).__name__}: {e}", seq=list(seq))
            return
        perf[str(g)][c.ID] = {"fitness": [float(x) for x in got], "agg_fitness": 0, "time_stamp": 0, "hash": c.hash()}
        if not close(list(got), ref[i]):
            res.violate("reused-fitness", f"evaluations {['V%d' % k for k in seq[:g + 1]]}: fitness {list(got)} for V{i}, which has {ref[i]}", seq=list(seq))
            return
        res["states"].add(hash(seq[:g + 1]))


def other(spec):
    """The same system with one more machine and under another name: an initial solution."""
    s = json.loads(json.dumps(spec))
    first = next(iter(s["res"]))
    s["res"]["R9"] = dict(s["res"][first], loc=[5, 9], **{"in": "R9_in", "out": "R9_out"})
    s["queues"].update(R9_in=0, R9_out=0)
    a = build.build(s)
    a.ID = "initial"
    return a


def optimise(kind, spec, folder, mode=""):
    """mode: "" - objects; "file" - everything from files; "init" - another initial solution; "none" - no initial solution; "full" - with the event logs."""
    from prodsys.optimization import evolutionary_algorithm as ea, simulated_annealing as sa, tabu_search as ts
    b0 = build.build(spec)
    hyper = {"ea": lambda: ea.EvolutionaryAlgorithmHyperparameters(seed=0, number_of_generations=2, population_size=4, mutation_rate=0.6, crossover_rate=0.6,
                                                                   number_of_seeds=1, number_of_processes=1),
             "sa": lambda: sa.SimulatedAnnealingHyperparameters(seed=0, Tmax=100, Tmin=1, steps=4, updates=0, number_of_seeds=1),
             "tabu": lambda: ts.TabuSearchHyperparameters(seed=0, tabu_size=3, max_steps=1, max_score=1e9, number_of_seeds=1)}[kind]()
    module = {"ea": ea, "sa": sa, "tabu": ts}[kind]
    function = {"ea": ea.evolutionary_algorithm_optimization, "sa": sa.simulated_annealing_optimization, "tabu": ts.tabu_search_optimization}[kind]
    inputs = os.path.join(folder, "inputs")
    kw = {"full_save": True} if mode == "full" else {}
    if mode in ("file", "init"):
        os.mkdir(inputs)
    if mode == "file":
        b0.write_data(os.path.join(inputs, "base.json"))
        b0.write_scenario_data(os.path.join(inputs, "scenario.json"))
        module.optimize_configuration(os.path.join(inputs, "base.json"), os.path.join(inputs, "scenario.json"), folder, hyper)
        return
    if kind == "ea":
        if mode == "init":
            b0.write_data(os.path.join(inputs, "unnamed.json"))
            other(spec).write_data(os.path.join(inputs, "other.json"))
            kw["initial_solutions_folder"] = inputs
    elif mode == "init":
        kw["initial_solution"] = other(spec)
    elif mode != "none":
        kw["initial_solution"] = b0.model_copy(deep=True)
    function(b0, hyper, save_folder=folder, **kw)


def whole(res, task, tier):
    from prodsys.adapters import JsonProductionSystemAdapter
    from prodsys.models import scenario_data as sd
    spec = task["spec"]
    b0 = build.build(spec)
    memo = {}
    t0 = time.time()
    lim = (12 if task.get("mode") else 25) if tier == "quick" else 400

    def run(ch):
        folder = tempfile.mkdtemp(prefix="mc_opt_")
        out, err = io.StringIO(), None
        orig, n = ch.choose, [0]

        def choose(k, label):
            n[0] += 1
            if n[0] > 4000:
                raise opt.Budget()
            return orig(k, label)
        ch.choose = choose
        with own_rng(ch), contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                optimise(task["kind"], spec, folder, task.get("mode", ""))
            except opt.Budget:
                err = "budget"
            except Exception as e:
                err = e
        return folder, out.getvalue(), err

    for ch, (folder, out, err) in explore(run, 1 if tier == "quick" else 2, cap=400 if tier == "quick" else 4000, stop=lambda: time.time() - t0 > lim,
                                          part=task["part"], parts=task["parts"]):
        try:
            res["runs"] += 1
            if err == "budget":
                continue
            if err is not None:
                res.violate(task["kind"] + "-raises", f"{type(err).__name__}: {err}", choices=list(ch.choices)[:60])
                continue
            judge(res, task, folder, out, b0, memo, ch, JsonProductionSystemAdapter)
        finally:
            shutil.rmtree(folder)
    res["samples"].append({"run": task["name"], "executions": res["runs"], "entries": res["transitions"]})


def products_in(path):
    import csv
    with open(path) as f:
        rows = list(csv.DictReader(f))
    return len({r["Product"] for r in rows if r["Activity"] == "finished product"})


def judge(res, task, folder, out, b0, memo, ch, Adapter):
    with open(os.path.join(folder, "optimization_results.json")) as f:
        data = json.load(f)
    direction = "min" if task["kind"] == "sa" else "max"
    w = weights(b0, direction)
    names = [getattr(o.name, "value", o.name) for o in b0.scenario_data.objectives]
    logs, done_keys, configs = set(), {}, {}
    fits, saved = set(), {os.path.basename(p) for p in glob.glob(os.path.join(folder, "generation_*.json"))}
    for g, inds in data.items():
        for ID, e in inds.items():
            res["transitions"] += 1
            name = f"generation_{g}_{ID}.json"
            if name not in saved:
                res.violate(task["kind"] + "/file", f"no file of solution {ID} in generation {g}", choices=list(ch.choices)[:60])
                continue
            a = Adapter()
            try:
                a.read_data(os.path.join(folder, name))
            except Exception as x:
                res.violate(task["kind"] + "/read", f"the saved file of {ID} cannot be read: {type(x).__name__}: {x}", choices=list(ch.choices)[:60])
                continue
            a.scenario_data = b0.scenario_data
            k = opt.canon(a)
            if k not in memo:
                memo[k] = fresh(a, b0, 1)
            configs[k] = a
            if not close(e["fitness"], memo[k]):
                res.violate(task["kind"] + "/fitness", f"{ID}: reported {e['fitness']}, the saved configuration has {memo[k]}", choices=list(ch.choices)[:60])
            agg = sum(x * y for x, y in zip(e["fitness"], w))
            if abs(agg - e["agg_fitness"]) > 1e-6 * max(1, abs(agg)):
                res.violate(task["kind"] + "/aggregate", f"{ID}: {e['agg_fitness']}, the weighted sum is {agg}", choices=list(ch.choices)[:60])
            if task["kind"] != "ea" and opt.acceptable(a, b0):
                res.violate(task["kind"] + "/outside-limits", f"{ID}: {opt.acceptable(a, b0)}", choices=list(ch.choices)[:60])
            if task.get("mode") == "full" and k not in logs and not opt.acceptable(a, b0):
                # the first evaluation of a configuration leaves its event log
                files = glob.glob(os.path.join(folder, ID + "_*.csv"))
                if files and any("throughput" == n for n in names):
                    logs.add(k)
                    done = products_in(files[0])
                    if abs(done - memo[k][names.index("throughput")]) > 1e-9:
                        res.violate(task["kind"] + "/log", f"{ID}: {done} finished products in the saved event log, throughput {memo[k]}", choices=list(ch.choices)[:60])
            done_keys.setdefault(k, ID)
            fits.add(round(agg, 6))
            res["states"].add(hash(k))
    if task.get("mode") == "full":
        lost = [i for k, i in done_keys.items() if k not in logs and not opt.acceptable(configs[k], b0)]
        if lost and "throughput" in names:
            res.violate(task["kind"] + "/log", f"no event log of the solutions {lost} and their copies", choices=list(ch.choices)[:60])
    if task.get("mode") == "init" and task["kind"] != "ea" and "initial" not in data["0"]:
        res.violate(task["kind"] + "/initial", "the initial solution is not among the results", choices=list(ch.choices)[:60])
    if task["kind"] == "tabu":
        line = [x for x in out.splitlines() if x.startswith("Best solution has ID")]
        best = float(line[-1].rsplit(":", 1)[1]) if line else None
        top = max(e["agg_fitness"] for e in data["0"].values())
        if best is None or abs(best - top) > 1e-6 * max(1, abs(top)):
            res.violate("tabu/best", f"best reported {best}, best evaluated {top}", choices=list(ch.choices)[:60])
    res["nontrivial"] += len(fits) > 1
    res["outcomes"] |= fits


def run_task(task, tier):
    res = Result()
    with opt.unlocked():
        {"eval": evals, "history": history, "reuse": reuse}.get(task["kind"], whole)(res, task, tier)
    return res
