"""P31: the analysis of optimisation results lists every evaluated configuration and selects exactly the best ones.

Explored: all short sequences of fitness vectors over small alphabets, all distributions over
generations, all directions of the objectives, written as results files like the optimisers do."""
import itertools
import json
import os
import shutil
import tempfile

from .. import boot
from ..harness import Result

LEVEL = "model_checking"
RULE = ("Every sequence of up to the stated number of fitness vectors over the alphabet is written as a results file, split over the generations in every way, and read, filtered and compared with a reference by definition, "
        "for all directions of the objectives. Non-trivial: some vector is dominated and some is not.")
ASSUMPTIONS = ["at least one configuration of the file was evaluated; one configuration has the same fitness wherever it is listed"]


def dominated(v, vs):
    """by definition, all objectives minimised"""
    return any(all(a <= b for a, b in zip(w, v)) and w != v for w in vs)


SPACES = {  # number of objectives: alphabets of one objective, most vectors
    "1": ([(-1.5, 0.0, 2.0, 2.0000001)], 4),
    "2": ([(0.0, 1.0, 2.5)] * 2, 4),
    "2/scale": ([(0.001, 0.0011, -0.5), (1000.0, 1e6, 1e6 + 1)], 3),
    "3": ([(0.0, 1.0)] * 3, 4),
    "4": ([(0.0, 1.0)] * 4, 3),
}


def vectors(space, n):
    al = list(itertools.product(*SPACES[space][0]))
    return itertools.product(al, repeat=n)


def tasks(tier):
    out = []
    for s, (_, most) in SPACES.items():
        for n in range(1, most + (tier == "thorough" and s in ("1", "2/scale", "4") and 1) + 1):
            size = 1
            for a in SPACES[s][0]:
                size *= len(a)
            k = max(1, min(32, size ** n // 400))
            for i in range(k):
                out.append(dict(name=f"front/{s}/n{n}/{i}", kind="front", space=s, n=n, part=(i, k)))
    for i in range(8):
        out.append(dict(name=f"files/{i}", kind="files", part=(i, 8)))
    return out


# ------------------------------------------------------------------ the selection
def front(res, task):
    import numpy as np
    from prodsys.optimization import optimization_analysis as oa
    i, k = task["part"]
    for j, vs in enumerate(vectors(task["space"], task["n"])):
        if j % k != i:
            continue
        res["runs"] += 1
        keep = [not dominated(v, vs) for v in vs]
        best = {v for v, b in zip(vs, keep) if b}
        res["states"].add(hash(vs))
        res["nontrivial"] += not all(keep)
        res["outcomes"].add((len(vs), len(best), sum(keep)))
        for fn in ("is_pareto_efficient", "is_pareto_efficient_simple"):
            res["transitions"] += 1
            c = np.array(vs, dtype=float)
            try:
                mask = list(getattr(oa, fn)(c))
            except Exception as e:
                res.violate(f"raises/{fn}", f"{vs}: {type(e).__name__}: {e}", vectors=vs)
                continue
            if len(mask) != len(vs) or {v for v, b in zip(vs, mask) if b} != best:
                res.violate(f"front/{fn}", f"{mask} for {vs}", vectors=vs)
            if c.tolist() != [list(v) for v in vs]:
                res.violate(f"changed/{fn}", f"the costs {vs} were changed", vectors=vs)
        if not res["samples"]:
            res["samples"].append({"vectors": vs, "efficient": keep})


# ------------------------------------------------------------------ results files
def splits(n):
    """all distributions of n entries, in order, over consecutive generations, empty ones at the end included"""
    for cut in range(2 ** (n - 1)):
        g, cur = [], [0]
        for i in range(1, n):
            if cut >> (i - 1) & 1:
                g.append(cur)
                cur = []
            cur.append(i)
        yield g + [cur]


def files(res, task):
    from prodsys.optimization import optimization_analysis as oa
    i, k = task["part"]
    d = tempfile.mkdtemp(prefix="mc_p31_")
    path = os.path.join(d, "optimization_results.json")
    al = [(0.0, 1.0), (1.0, 0.0), (1.0, 1.0), None]  # None: listed, but not evaluated
    j = 0
    try:
        for n in (1, 2, 3, 4):
            for vs in itertools.product(al, repeat=n):
                if not any(vs):
                    continue
                for gens in splits(n):
                    # the last entry repeats the first configuration, in a later generation
                    for again in (False, True) if len(gens) > 1 and vs[0] == vs[-1] else (False,):
                        j += 1
                        if j % k == i:
                            one(res, oa, path, vs, gens, again)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one(res, oa, path, vs, gens, again):
    ids = [f"c{x}" for x in range(len(vs))]
    if again:
        ids[-1] = ids[0]
    doc, rows = {}, []
    for g, members in enumerate(gens):
        doc[str(g)] = {}
        for pos, x in enumerate(members):
            e = {"hash": f"h{x}"}
            if vs[x] is not None:
                e = {"agg_fitness": sum(vs[x]) - x, "fitness": list(vs[x]), "time_stamp": x * 0.5, "hash": f"h{x}"}
                rows.append(dict(Generation=g, population_number=pos + 1, ID=ids[x], agg_fitness=e["agg_fitness"], time=e["time_stamp"], KPI_0=vs[x][0], KPI_1=vs[x][1]))
            doc[str(g)][ids[x]] = e
    with open(path, "w") as f:
        json.dump(doc, f)
    res["runs"] += 1
    res["states"].add(hash(json.dumps(doc)))
    case = f"{doc}"
    for label in ("evolutionary", "anneal", "tabu"):
        res["transitions"] += 1
        try:
            df = oa.read_optimization_results_file_to_df(path, label)
            got = [{k: r[k] for k in df.columns} for _, r in df.iterrows()]
        except Exception as e:
            res.violate("raises/read", f"{label}: {type(e).__name__}: {e}: {case}", doc=doc)
            continue
        want = [dict(r, optimizer=label, agg_fitness=-r["agg_fitness"] if label == "anneal" else r["agg_fitness"]) for r in rows]
        if got != want:
            res.violate("rows", f"{label}: {got} instead of {want}", doc=doc)
    for signs in itertools.product((1.0, -1.0), (1.0, -0.2)):
        res["transitions"] += 1
        cost = {x: tuple(-s * a if s else a for s, a in zip(signs, v)) for x, v in enumerate(vs) if v}
        best = {vs[x] for x in cost if not dominated(cost[x], cost.values())}
        res["nontrivial"] += len(best) < len({v for v in vs if v})
        res["outcomes"].add((len(rows), len(best), signs))
        try:
            got = oa.get_pareto_solutions_from_result_files(path, signs)
        except Exception as e:
            res.violate("raises/select", f"{type(e).__name__}: {e}: {case}", doc=doc)
            continue
        fit = {ids[x]: vs[x] for x in cost}
        if any(g not in fit for g in got):
            res.violate("unknown", f"{got}, of {case}", doc=doc)
        elif {fit[g] for g in got} != best:
            res.violate("select", f"{[(g, fit[g]) for g in got]} with weights {signs}, best are {sorted(best)}: {case}", doc=doc)
        elif len(got) != len(set(got)):
            res.violate("twice", f"{got} with weights {signs}: {case}", doc=doc)
        with open(path) as f:
            if json.load(f) != doc:
                res.violate("file", "the results file was changed", doc=doc)


def run_task(task, tier):
    res = Result()
    (front if task["kind"] == "front" else files)(res, task)
    return res
