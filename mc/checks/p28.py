"""P28: with the warm-up phase cut off, the results describe exactly the products created from one common time on.

Explored: all short series for the three cut-off methods, and simulations for all patterns of
processing times, the results of which are compared with a reference made from the event log."""
import itertools
import math
from fractions import Fraction

from .. import boot, simrun, suites
from ..build import line
from ..harness import Result
from ..trace import by, created, finished
from .p16 import near, same, work, zero_end

LEVEL = "model_checking"
RULE = ("Every series of throughput times up to the stated length over a small alphabet (and every series of batches of five) is given to the three cut-off methods and compared with a reference; every pattern of processing "
        "times of one and two product types is simulated (several horizons) and the results with cut-off are compared with a reference computed from the event log and the results without it. Non-trivial: something is cut off.")
ASSUMPTIONS = ["products of one type are created at different times",
               "the mean WIP is the mean over the logged values and the utilisation the share of the logged states from the cut-off on"]

METHODS = ("mser5", "threshold_stabilization", "static_ratio")


# ------------------------------------------------------------------ reference of the methods: set of admissible cuts
def cuts(xs, method):
    n = len(xs)
    xs = [Fraction(x).limit_denominator(10 ** 9) for x in xs]
    if method == "static_ratio":
        return {n * 15 // 100}
    if method == "threshold_stabilization":
        avg = [sum(xs[:i + 1]) / (i + 1) for i in range(n)]
        ch = [abs(b - a) for a, b in zip(avg, avg[1:])]
        if not ch:
            return {n}
        lim = sum(ch) / len(ch) / 10
        out = set()
        # a change within rounding of the limit may count either way
        for slack in (Fraction(1, 10 ** 12), -Fraction(1, 10 ** 12)):
            out.add(next((i for i in range(1, len(ch)) if all(c < lim * (1 + slack) for c in ch[i:])), n))
        return out
    if n < 5:
        return {n}
    b = [sum(xs[i:i + 5]) / 5 for i in range(0, n - n % 5, 5)]
    if len(b) == 1:
        return {n}
    err = {}
    for i in range((len(b) + 1) // 2):
        r = b[i:]
        m = sum(r) / len(r)
        err[i] = sum((x - m) ** 2 for x in r) / len(r) / len(r)
    best = min(err.values())
    return {5 * i for i, e in err.items() if math.isclose(math.sqrt(e), math.sqrt(best), rel_tol=1e-9, abs_tol=1e-9)}


def series(tier):
    th = tier == "thorough"
    for n in range(1, 9 if th else 7):
        for xs in itertools.product((1, 2, 5), repeat=n):
            yield xs
    for n in range(7, 15 if th else 12):
        for xs in itertools.product((2, 5), repeat=n):
            yield xs
    for m in range(2, 9 if th else 7):
        for bs in itertools.product((3, 4, 9), repeat=m):
            for rest in ((), (50,), (1, 9, 4, 2)):
                yield tuple(x for b in bs for x in (b - 1, b, b + 1, b, b)) + rest
    for n in (20, 21, 26, 40, 41, 66, 67, 100, 134, 200):
        yield tuple(10 - 8 / (i + 1) for i in range(n))
        yield tuple(10.0 for i in range(n))
        yield tuple([20.0] * (n // 4) + [5.0 + i % 2 for i in range(n - n // 4)])


def methods(res, task, tier):
    import pandas as pd
    from prodsys.util.warm_up_post_processing import get_warm_up_cutoff_index
    k, m = task["part"]
    for i, xs in enumerate(series(tier)):
        if i % m != k:
            continue
        df = pd.DataFrame({"Product": [f"p{j}" for j in range(len(xs))], "X": [float(x) for x in xs]}, index=[(7 * j) % 97 if len(xs) < 97 else j for j in range(len(xs))])
        before = df.copy()
        for me in METHODS:
            res["runs"] += 1
            res["transitions"] += len(xs)
            try:
                got = get_warm_up_cutoff_index(df, "X", me)
            except Exception as e:
                res.violate(f"raises/{me}", f"{type(e).__name__}: {e} for {xs[:30]}", series=list(xs))
                continue
            want = cuts(xs, me)
            if got not in want:
                res.violate(f"cut/{me}", f"cut at {got} of {len(xs)} instead of {sorted(want)} for {xs[:30]}", series=list(xs))
            res["nontrivial"] += 0 < got < len(xs)
            res["outcomes"].add((me, got))
        if not df.equals(before):
            res.violate("input-changed", f"the table changed for {xs}")
        res["states"].add(xs)


# ------------------------------------------------------------------ simulations
def one(n, times, gap=6, cap=6, **kw):
    s = line(n_prod=n, gap=gap, proc={"P1": {"sched": list(times), "abs": False, "cyc": True}}, tr=0.5, machines=("R1",), plan=("P1",), cap=cap, n_tr=3, **kw)
    return s


def two(n, na, ta, nb, tb, gap=6, gapb=7, firstb=3):
    s = one(na, ta, gap=gap)
    s["prods"]["B"] = {"procs": ["P2"], "tp": "TP"}
    s["tm"]["tp_P2"] = {"sched": list(tb), "abs": False, "cyc": True}
    s["procs"]["P2"] = {"t": "tp_P2"}
    s["tm"]["arrB"] = {"sched": [firstb + 0.25 + i * gapb for i in range(nb)], "abs": True}
    s["queues"].update(srcB=0, snkB=0, R2_in=0, R2_out=0)
    s["res"]["R2"] = dict(s["res"]["R1"], loc=[5, 9], procs=["P2"], **{"in": "R2_in", "out": "R2_out"})
    s["sources"]["SRCB"] = {"loc": [0, 6], "type": "B", "t": "arrB", "heur": "FIFO", "out": "srcB"}
    s["sinks"]["SNKB"] = {"loc": [11, 6], "type": "B", "in": "snkB"}
    return s


def scenarios(tier):
    th = tier == "thorough"
    out = []

    def add(name, spec, horizon=400):
        out.append((name, spec, horizon))
    for n in range(1, 10 if th else 8):
        for i, xs in enumerate(itertools.product((2, 9), repeat=n)):
            if th or n < 6 or i % 5 == n % 5:
                add(f"one/{n}/{''.join(map(str, xs))}", one(n, xs))
    for m in (2, 3, 4, 5):
        for bs in itertools.product((2, 4, 12), repeat=m):
            if m > 3 and not th and sum(bs) % (4 if m == 4 else 16) != 2:
                continue
            add(f"batches/{'-'.join(map(str, bs))}", one(5 * m, [x for b in bs for x in (b, b + 1, b, b + 1, b)]))
    for pa in itertools.product((2, 12), repeat=3):
        for pb in itertools.product((3, 8), repeat=3):
            for firstb, gapb in ((3, 6), (40, 4)):
                add(f"two/{pa}/{pb}/{firstb}", two(0, 15, [x for p in pa for x in (p, p + 1) * 2 + (p,)], 15, [x for p in pb for x in (p,) * 5], gapb=gapb, firstb=firstb))
    for na, nb, firstb in ((7, 14, 1), (14, 7, 30), (10, 3, 50), (3, 12, 1), (8, 8, 90), (20, 1, 5), (1, 20, 5)):
        for d in (1, 3):
            add(f"uneven/{na}/{nb}/{firstb}/{d}", two(0, na, [12, 8, 4, 2 * d] + [2] * 20, nb, [9, 6, 3] + [3] * 20, firstb=firstb))
    for hz in (1.5, 3, 9, 14, 25, 45, 60, 75):
        add(f"cut/{hz}", two(0, 12, [12, 9, 4] + [2] * 20, 9, [5, 8, 3] + [3] * 20), hz)
        add(f"congested/{hz}", one(16, (5, 2, 5), gap=2, cap=1), 2 * hz)
    for f in ("bd", "setup", "tr", "aux", "store"):
        ts = [t for t in suites.FAMILIES[f](tier) if "overlap" not in t["name"] and not t["spec"].get("zero") and "/room/" not in t["name"]]
        for t in ts[::max(1, len(ts) // (12 if th else 4))]:
            sp = dict(t["spec"], tm=dict(t["spec"]["tm"]))
            for s in sp["sources"].values():
                v = sp["tm"][s["t"]]
                if isinstance(v, dict) and "sched" in v and v.get("abs", True) and len(set(v["sched"])) == len(v["sched"]):
                    a = sorted(v["sched"])
                    g = (a[-1] - a[0]) / (len(a) - 1) if len(a) > 1 else 3
                    sp["tm"][s["t"]] = {"sched": a + [a[-1] + g * (i + 1) for i in range(9)], "abs": True}
            add(f"{f}/{t['name']}", sp, 120)
    return out


def tasks(tier):
    k = 8
    out = [dict(name=f"methods/{i}", kind="methods", part=(i, k)) for i in range(k)]
    sc = scenarios(tier)
    g = 48
    for i in range(g):
        out.append(dict(name=f"results/{i}", kind="results", sc=sc[i::g]))
    return out


def results(res, task, tier):
    for i, (name, spec, hz) in enumerate(task["sc"]):
        me = METHODS[i % 3]

        def drive(tr, attach):
            from prodsys.util.runner import Runner
            r = Runner(adapter=tr.adapter, warm_up_cutoff=True, cut_off_method=me)
            r.initialize_simulation()
            tr.runner = r
            attach(r)
            r.run(hz)
        tr = simrun.run(spec, horizon=hz, observe=False, drive=drive)
        if tr.error:
            continue
        res["states"].add(hash(simrun.fingerprint(tr)))
        for m in METHODS:
            res["runs"] += 1
            res["transitions"] += len(tr.log)
            for sig, msg in compare(tr, m, m == me, res):
                res.violate(f"{sig}/{m}", f"{name} until {hz}: {msg}", scenario=name)
        if not res["samples"]:
            res["samples"].append({"scenario": name, "finished": len(finished(tr)), "events": len(tr.log)})


def compare(tr, method, own, res):
    import pandas as pd
    from prodsys.util.post_processing import PostProcessor
    out = []
    raw = tr.runner.event_logger.get_data_as_dataframe()
    pp = tr.runner.get_post_processor() if own else PostProcessor(df_raw=raw, warm_up_cutoff=True, cut_off_method=method)
    full = PostProcessor(df_raw=raw)

    def get(name, o=None):
        try:
            return getattr(o or pp, name)
        except Exception as e:
            out.append((f"raises/{name}", f"{type(e).__name__}: {str(e)[:150]}"))
            return None
    fin = {p: t for t, p, _ in finished(tr)}
    cre = {p: t for t, p, _ in created(tr)}
    typ = {p: p.rsplit("_", 1)[0] for p in fin}
    # ---- the cut
    options = [0.0] if not fin else []
    if fin:
        per, too_short = [], False
        for ty in set(typ.values()):
            ps = sorted((p for p in fin if typ[p] == ty), key=lambda p: cre[p])
            cs = cuts([fin[p] - cre[p] for p in ps], method)
            per.append([cre[ps[c]] if c < len(ps) else None for c in cs])
        for combo in itertools.product(*per):
            options.append(None if None in combo else min(combo))
    first = min((cre[p] for p in fin), default=0.0)
    options = [0.0 if c is None or c <= first + 1e-9 else c for c in options]
    df = get("df_throughput_with_warum_up_cutoff")
    if df is None:
        return out
    got = set(df["Product"])
    cut = next((c for c in options if got == {p for p in fin if cre[p] >= c - 1e-9}), None)
    if cut is None or len(df) != len(got):
        out.append(("products", f"{sorted(got)} remain, cut at {options}, of {sorted((cre[p], p) for p in fin)}"))
        return out
    if {typ[p] for p in got} != set(typ.values()):
        out.append(("type-lost", f"{set(typ.values())} finished, {sorted(got)} remain"))
    ct = get("warm_up_cutoff_time")
    if ct is None or not near(ct, cut):
        out.append(("time", f"cut at {ct} instead of {cut}"))
        return out
    res["nontrivial"] += cut > 0
    res["outcomes"].add((method, cut > 0, len(got)))
    keep = [p for p in fin if p in got]
    for _, r in df.iterrows():
        p = r["Product"]
        if r["Product_type"] != typ[p] or not near(r["Start_time"], cre[p]) or not near(r["End_time"], fin[p]) or not near(r["Throughput_time"], fin[p] - cre[p]):
            out.append(("row", f"{dict(r)}"))
    # ---- tables that the option must not touch
    for name in ("df_throughput", "df_WIP", "df_WIP_per_product", "df_resource_states"):
        a, b = get(name), get(name, full)
        if a is not None and b is not None and not a.reset_index(drop=True).equals(b.reset_index(drop=True)):
            out.append(("untouched", f"{name} differs with the option"))
    # ---- results
    per = {}
    for p in keep:
        per.setdefault(typ[p], []).append(fin[p] - cre[p])
    mean = {t: sum(v) / len(v) for t, v in per.items()}
    ser = get("df_aggregated_throughput_time")
    if ser is not None and not same(dict(ser.items()), mean):
        out.append(("mean-throughput-time", f"{dict(ser.items())} instead of {mean}"))
    if keep:
        avail = max(fin[p] for p in keep) - min(cre[p] for p in keep)
        ser = get("df_aggregated_output")
        if ser is not None and dict(ser.items()) != {t: len(v) for t, v in per.items()}:
            out.append(("output", f"{dict(ser.items())}"))
        want = {}
        for t, v in per.items():
            want["output", t], want["throughput", t] = len(v), len(v) / avail
        ks = get("throughput_and_output_KPIs")
        if ks is not None and not same({(k.name.value, k.product_type): k.value for k in ks}, want):
            out.append(("output-kpis", f"{[(k.name.value, k.product_type, k.value) for k in ks]} instead of {want}"))
        ks = get("aggregated_throughput_time_KPIs")
        if ks is not None and not same({k.product_type: k.value for k in ks}, mean):
            out.append(("throughput-time-kpis", f"{[(k.product_type, k.value) for k in ks]} instead of {mean}"))
        order = sorted(per)
        if not out and (list(pp.get_aggregated_throughput_data()) != [len(per[t]) for t in order]
                        or not all(near(a, mean[t]) for a, t in zip(pp.get_aggregated_throughput_time_data(), order))):
            out.append(("lists", f"{pp.get_aggregated_throughput_data()} {pp.get_aggregated_throughput_time_data()}"))
    # ---- mean WIP: the logged values from the cut on
    a, b = get("df_WIP", full), get("df_WIP_per_product", full)
    ser = get("df_aggregated_WIP")
    if a is not None and b is not None and ser is not None:
        auxt = {v.get("type", k) for k, v in tr.spec["aux"].items()}
        want = {}
        if not auxt:
            rows = [w for t, w in zip(a["Time"], a["WIP"]) if t >= cut - 1e-9]
            want["Total"] = sum(rows) / len(rows)
        for ty in set(b["Product_type"]):
            rows = [w for t, w, y in zip(b["Time"], b["WIP"], b["Product_type"]) if t >= cut - 1e-9 and y == ty]
            if rows:
                want[ty] = sum(rows) / len(rows)
        got = {k: v for k, v in ser.items() if k in want or k != "Total"}
        if not same(got, want):
            out.append(("mean-wip", f"{got} instead of {want}"))
        ks = get("WIP_KPIs")
        if ks is not None and not same({("Total" if "all_products" in [c.value for c in k.context] else k.product_type): k.value for k in ks}, dict(ser.items())):
            out.append(("wip-kpis", "differ from the table"))
    # ---- shares of the resource states: the logged states from the cut on
    a, agg = get("df_resource_states", full), get("df_aggregated_resource_states")
    if a is not None and agg is not None:
        want, tot = {}, {}
        for t, r, k, d in zip(a["Time"], a["Resource"], a["Time_type"], a["time_increment"]):
            if t >= cut - 1e-9 and isinstance(k, str) and k != "na":
                want[r, k] = want.get((r, k), 0.0) + d
                tot[r] = tot.get(r, 0.0) + d
        got = {(r, k): x for r, k, x in zip(agg["Resource"], agg["Time_type"], agg["time_increment"])}
        if not same(got, want):
            out.append(("resource-states", f"{got} instead of {want}"))
        else:
            for r, k, x in zip(agg["Resource"], agg["Time_type"], agg["percentage"]):
                if tot[r] and not near(x, 100 * want[r, k] / tot[r]):
                    out.append(("percentage", f"{r} {k}: {x}"))
            oee = get("df_oee_production_system")
            if oee is not None and all(tot.values()):
                ud = [100 * d / tot[r] for (r, k), d in want.items() if k == "UD"]
                val = dict(zip(oee["KPI"], oee["Value"]))
                if not near(val["OEE"], round(100 - (sum(ud) / len(ud) if ud else 0), 2), 1e-3):
                    out.append(("oee", f"{val} with downtimes {ud}"))
    # ---- time shares of the products
    if keep and not zero_end(tr) and any(e.p in got_set(keep) for e in by(tr, "Production")) and any(e.p in got_set(keep) for e in by(tr, "Transport")):
        df = get("df_production_flow_ratio")
        if df is not None:
            g = {r["Product_type"]: (r["Production "], r["Transport "], r["Idle "]) for _, r in df.iterrows()}
            for ty in per:
                ps = [p for p in keep if typ[p] == ty]
                if not any(e.p in ps for e in by(tr, "Production")) or not any(e.p in ps for e in by(tr, "Transport")):
                    continue
                pr, tp = (sum(work(tr, p, k) for p in ps) / len(ps) for k in ("Production", "Transport"))
                m = mean[ty]
                want = (pr / m * 100, tp / m * 100, (m - pr - tp) / m * 100)
                if ty not in g or not all(near(x, y) for x, y in zip(g[ty], want)):
                    out.append(("flow-ratio", f"{ty}: {g.get(ty)} instead of {want}"))
    # ---- what the runner hands out
    if own and keep:
        try:
            perf = tr.runner.get_performance_data()
            k = {(x.name.value, x.product_type): x.value for x in perf.kpis if x.name.value == "output"}
            if k != {("output", t): len(v) for t, v in per.items()}:
                out.append(("performance-data", f"{k}"))
            d = tr.runner.get_aggregated_data_simulation_results()
            th = d["Throughput"]
            if {th["Product_type"][i]: th["Output"][i] for i in th["Output"]} != {t: len(v) for t, v in per.items()}:
                out.append(("aggregated-results", f"{str(d)[:300]} instead of {per}"))
        except Exception as e:
            out.append(("raises/runner", f"{type(e).__name__}: {e}"))
    return out[:6]


def got_set(x):
    return set(x)


def run_task(task, tier):
    res = Result()
    (methods if task["kind"] == "methods" else results)(res, task, tier)
    return res
