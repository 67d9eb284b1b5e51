"""P17: time models and arrivals."""
import itertools
import math

from .. import build, monitors as M, simrun, suites
from ..explore import Chooser, distribution, explore, own_rng
from ..harness import Result
from ..trace import created, tm_domain

LEVEL = "model_checking"
RULE = ("Every time model of the enumerated parameter grid, every answer of the random generators from the menus (all samples; "
        "representative deviates) with at most `bound` deviations; the values are compared with a reference written from the documentation. "
        "Arrivals: every source of small systems. Non-trivial: more than one value was drawn.")
ASSUMPTIONS = ["distributions are checked through the parameters and values handed to and returned by the generators, not statistically"]


def tasks(tier):
    th = tier == "thorough"
    out = []

    def add(name, v, **k):
        out.append(dict(name="tm/" + name, kind="tm", v=v, **k))

    for c in (0, 0.5, 1, 3, 7.25, 1e6):
        for b in (1, 2, 5):
            add(f"const/{c}/{b}", {"fn": ["constant", c, 0, b]})
    for s in ([1.0], [2.0, 5.0], [1.0, 4.0, 9.0], [3.0, 3.0, 6.0], [0.5, 0.25, 2.0, 8.0], [0.0, 1.0]):
        add(f"sample/{s}", s)
        add(f"seq/{s}", {"seq": s})
    for sch in ([1], [5], [1, 2], [1, 4, 5], [3, 4, 10], [2, 2.5, 7, 7.25], [0.5, 100]):
        for ab, cyc in itertools.product((True, False), (True, False)):
            add(f"sched/{sch}/abs{ab:d}/cyc{cyc:d}", {"sched": sch, "abs": ab, "cyc": cyc})
    for sch in ([4, 1, 1], [2, 7, 3]):
        for cyc in (True, False):
            add(f"sched/{sch}/abs0/cyc{cyc:d}", {"sched": sch, "abs": False, "cyc": cyc})
    for sp, re, met in itertools.product((0.5, 1, 3), (0, 0.7), (None, "manhattan", "euclidian")):
        add(f"dist/{sp}/{re}/{met}", {"dist": [sp, re] + ([met] if met else [])})
        if met is None:
            add(f"manh/{sp}/{re}", {"manh": [sp, re]})
    for d, loc, sc, b in itertools.product(("normal", "exponential", "lognormal"), (0.5, 3, 20), (0.1, 2, 10), (1, 3)):
        add(f"{d}/{loc}/{sc}/{b}", {"fn": [d, loc, sc, b]})
    arrs = {"sched": {"sched": [1, 2, 2.5, 9], "abs": True}, "rel": {"sched": [1, 3, 2], "abs": False},
            "cyc": {"sched": [2, 5], "abs": True, "cyc": True}, "relcyc": {"sched": [2, 5, 1], "abs": False, "cyc": True},
            "const": 4, "sample": [2, 3, 7], "seq": {"seq": [1, 6]}, "exp": {"fn": ["exponential", 4, 0, 3]},
            "norm": {"fn": ["normal", 4, 3, 3]}, "logn": {"fn": ["lognormal", 4, 1, 2]}}
    for (a, v), (b, w) in itertools.product(arrs.items(), arrs.items()):
        if not th and (list(arrs).index(a) + list(arrs).index(b)) % 2:
            continue
        s = suites.two_types()
        s["tm"]["arr"], s["tm"]["arrB"] = v, w
        if (a, b) == ("const", "const"):
            s["sources"]["SRCB"]["t"] = "arr"  # two sources sharing one time model
        out.append(dict(name=f"arr/{a}+{b}", kind="arr", spec=s, horizon=30, bound=2 if th else 1, cap=1500 if th else 40))
    for f in ("rand", "setup", "bd", "offer", "rework", "tr", "batch", "disp"):
        ts = suites.FAMILIES[f](tier)
        for t in ts[::1 if th else max(1, len(ts) // 10)]:
            out.append(dict(name="sim/" + t["name"], kind="arr", spec=t["spec"], horizon=t["horizon"], bound=t["bound"],
                            cap=t["cap"] if th else 25))
    return out


PTS = [[0.0, 0.0], [3.0, 4.0], [-2.0, 5.0], [1.5, -0.5], [10.0, 0.0]]


def make(v):
    from prodsys.factories.time_model_factory import TimeModelFactory
    from prodsys.adapters import JsonProductionSystemAdapter

    class A:
        time_model_data = [build.tm_data("other", 99), build.tm_data("x", v), build.tm_data("xx", 98)]
    f = TimeModelFactory()
    f.create_time_models(A)
    return f.get_time_model("x")


def run_task(task, tier):
    if task["kind"] == "arr":
        return _arr(task, tier)
    res = Result()
    v = task["v"]
    n = 7

    def run(ch):
        with own_rng(ch):
            tm = make(v)
            if isinstance(v, dict) and ("dist" in v or "manh" in v):
                return [(a, b, float(tm.get_next_time(origin=a, target=b)), float(tm.get_expected_time(a, b)))
                        for a in PTS for b in PTS]
            return [float(tm.get_next_time()) for _ in range(n)], float(tm.get_expected_time())

    seen = set()
    for ch, r in explore(run, 2, 400):
        res["runs"] += 1
        res["transitions"] += n
        res["nontrivial"] += 1
        res["states"].add(hash((task["name"], str(r))))
        res["outcomes"].add(hash(str(r)))
        if not res["samples"]:
            res["samples"].append({"time_model": v, "choices": ch.choices, "values": str(r)[:200]})
        for sig, msg in oracle(v, r, ch, seen, n):
            res.violate(sig, f"{v}: {msg}", choices=ch.choices)
        if len(res["violations"]) > 5:
            break
    if isinstance(v, list):
        def first(ch):
            with own_rng(ch):
                tm = make(v)
                return tuple(float(tm.get_next_time()) for _ in range(2))
        got = distribution(first)
        if got is not None:
            w = {(a, b): v.count(a) * v.count(b) / len(v) ** 2 for a in set(v) for b in set(v)}
            res["runs"] += len(v) ** 2
            if {k for k in got} != set(w) or any(abs(got[k] - w[k]) > 1e-9 for k in w):
                res.violate("sample-weights", f"{v}: two draws are distributed as {got}")
    if isinstance(v, list) and seen != set(map(float, v)):
        res.violate("sample-unreachable", f"{v}: only {sorted(seen)} can be drawn")
    return res


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def oracle(v, r, ch, seen, n):
    out = []
    if isinstance(v, dict) and ("dist" in v or "manh" in v):
        sp, re = (v.get("dist") or v["manh"])[:2]
        met = v["dist"][2] if "dist" in v and len(v["dist"]) > 2 else "manhattan"
        for a, b, t, e in r:
            d = math.dist(a, b) if met == "euclidian" else abs(a[0] - b[0]) + abs(a[1] - b[1])
            if not near(t, d / sp + re):
                out.append(("distance-time", f"{a}->{b}: {t}, expected {d / sp + re}"))
            if not near(t, e):
                out.append(("expected-time", f"{a}->{b}: time {t}, announced {e}"))
        return out
    vals, exp = r
    if isinstance(v, list) or "seq" in v:
        s = v if isinstance(v, list) else v["seq"]
        seen.update(vals)
        if any(x not in s for x in vals):
            out.append(("not-a-sample", f"{vals}"))
        if not near(exp, sum(s) / len(s)):
            out.append(("expected-time", f"{exp}"))
    elif "sched" in v:
        s, ab = v["sched"], v["abs"]
        rel = [s[0]] + [b - a for a, b in zip(s, s[1:])] if ab else list(s)
        want = [rel[i % len(rel)] for i in range(n)] if v["cyc"] else rel[:n]
        if not all(near(a, b) for a, b in zip(vals, want)):
            out.append(("schedule", f"{vals}, expected {want}"))
        if not v["cyc"] and any(x >= 0 for x in vals[len(rel):]):
            out.append(("schedule-continues", f"{vals}"))
        if not near(exp, sum(rel) / len(rel)):
            out.append(("expected-time", f"{exp}"))
    else:
        d, loc, sc, batch = v["fn"]
        if any(x < 0 for x in vals):
            out.append(("negative-time", f"{vals}"))
        if not near(exp, loc):
            out.append(("expected-time", f"{exp}"))
        if d == "constant" and any(not near(x, loc) for x in vals):
            out.append(("constant", f"{vals}"))
        # every possible value of the distribution for the deviates of the menus
        from ..explore import EXPO, NORM
        if d == "normal":
            dom = [loc + sc * z for z in NORM]
        elif d == "exponential":
            dom = [loc * z for z in EXPO]
        elif d == "lognormal":
            mu = math.log(loc ** 2 / math.sqrt(loc ** 2 + sc ** 2))
            sg = math.sqrt(math.log(1 + sc ** 2 / loc ** 2))
            dom = [math.exp(mu + sg * z) for z in NORM[:3]]
        else:
            return out
        for x in vals:
            if not any(near(x, y) for y in dom) and not (any(y < 0 for y in dom) and x <= 0.1):
                out.append(("distribution", f"{x} is not in {dom}"))
                break
        if ch.choices and not out:
            # each drawn deviate is used at most once, and a deviating one is used when its block is
            k = sum(1 for c in ch.choices[:] if c)
            odd = sum(1 for x in vals if not near(x, dom[0]))
            if odd > k:
                out.append(("value-reused", f"{vals} from {k} deviating draws"))
    return out


def _arr(task, tier):
    res = Result()
    spec = task["spec"]
    h = task["horizon"]

    def run(ch):
        return simrun.run(spec, ch, horizon=h)

    for ch, tr in explore(run, task["bound"], task["cap"]):
        res["runs"] += 1
        res["transitions"] += tr.steps
        res["states"] |= {hash((task["name"], x)) for x in tr.hashes}
        res["outcomes"].add(hash(simrun.fingerprint(tr)))
        res["nontrivial"] += len(created(tr)) > 1
        if not res["samples"]:
            res["samples"].append({"arrivals": [c[:2] for c in created(tr)][:8]})
        for sig, msg in M.no_error(tr) + arrivals(tr) + durations(tr):
            res.violate(sig, msg, choices=ch.choices)
        if len(res["violations"]) > 5:
            break
    return res


def arrivals(tr):
    """Arrival times of each source against the schedule or the domain of its time model."""
    out = []
    spec = tr.spec
    shared = {}
    for s, d in spec["sources"].items():
        shared.setdefault(d["t"], []).append(s)
    for tmid, srcs in shared.items():
        v = spec["tm"][tmid]
        for s in srcs:
            ts = [t for t, p, r in created(tr) if r == s]
            gaps = [b - a for a, b in zip([0.0] + ts, ts)]
            kind = v if isinstance(v, dict) else {}
            if "sched" in kind:
                rel = kind["sched"]
                if kind.get("abs", True):
                    rel = [rel[0]] + [b - a for a, b in zip(rel, rel[1:])]
                t, want, i = 0.0, [], 0
                while kind.get("cyc") or i < len(rel):
                    t += rel[i % len(rel)]
                    i += 1
                    if t >= tr.horizon:
                        break
                    want.append(t)
                if [round(x, 6) for x in want] != [round(x, 6) for x in ts]:
                    out.append(("arrivals", f"{s}: {ts}, expected {want}"))
                continue
            if isinstance(v, (int, float)):
                dom = [float(v)]
            elif isinstance(v, list):
                dom = v
            elif "seq" in kind:
                dom = kind["seq"]
            else:
                dom = None
            if dom is not None:
                if any(not any(near(g, x) for x in dom) for g in gaps):
                    out.append(("inter-arrival", f"{s}: {gaps} not in {dom}"))
                last = ts[-1] if ts else 0.0
                if last + max(dom) < tr.horizon:
                    out.append(("arrivals-stop", f"{s}: last arrival at {last}"))
            else:
                if any(g <= 0 for g in gaps):
                    out.append(("inter-arrival", f"{s}: {gaps}"))
    return out


def durations(tr):
    """Every complete activity works as long as its time model says."""
    out = []
    spec = tr.spec
    for e in M.by(tr, "Production", "Setup"):
        if e.t1 is None:
            continue
        d = spec["procs"].get(e.s) if e.kind == "Production" else spec["states"].get(e.s)
        if not d or "t" not in d:
            continue
        dom = tm_domain(spec["tm"][d["t"]])
        if dom is not None and not any(abs(e.worked - x) < 1e-6 for x in dom):
            out.append(("activity-time", f"{e} worked {e.worked}, the time model of {e.s} gives {sorted(dom)}"))
    return out[:3]


def replay(rep):
    task = rep["task"]
    return run_task(task, "quick")
