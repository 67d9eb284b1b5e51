"""P30: charts, reports and exports show the results of a run and change none of them.

Explored: every sequence of a bounded number of readings (all result tables, KPIs, charts and
reports of the post processor and the runner) on the histories of a set of systems; after each
one everything computed so far is compared with the same result read from a fresh post processor.
The content of every chart is compared with a reference computed from the result tables, and the
exported log must give the same results when it is read back."""
import ast
import base64
import contextlib
import copy
import functools
import inspect
import io
import json
import math
import os
import shutil
import tempfile
import time
from collections import defaultdict

from .. import boot, simrun, suites
from ..build import line
from ..explore import explore
from ..harness import Result

LEVEL = "model_checking"
RULE = ("All sequences of readings of the stated length (tables, KPI lists, charts, reports of the post processor), each started on a fresh post processor of a history; every result that exists afterwards must equal the one of a fresh "
        "post processor. On all histories (every choice of the random parts within the deviation bound) each chart is compared with a reference made from the tables, and exports are read back. Non-trivial: products finished.")
ASSUMPTIONS = ["the tables themselves are the subject of P16 and P28", "charts of densities need two different throughput times of a type", "images of charts are not rendered (no renderer is installed)"]


# ------------------------------------------------------------------ values
def canon(x):
    import pandas as pd
    import numpy as np
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return x.reset_index().to_json(orient="split", double_precision=9, default_handler=str)
    if isinstance(x, dict):
        return "{" + ",".join(f"{canon(k)}:{canon(v)}" for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple, np.ndarray)):
        return "[" + ",".join(canon(v) for v in x) + "]"
    if hasattr(x, "model_dump"):
        return canon(x.model_dump())
    if isinstance(x, (float, np.floating)):
        return "nan" if math.isnan(x) else f"{round(float(x), 9):.9g}"
    if isinstance(x, np.integer):
        return str(int(x))
    return str(getattr(x, "value", x))


def first_difference(a, b):
    n = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
    return f"...{a[max(0, n - 60):n + 60]} instead of ...{b[max(0, n - 60):n + 60]}"


def unpack(x):
    """content of a chart: typed arrays are written as base64"""
    import numpy as np
    if isinstance(x, dict):
        if set(x) >= {"bdata", "dtype"}:
            return np.frombuffer(base64.b64decode(x["bdata"]), dtype=np.dtype(x["dtype"])).tolist()
        return {k: unpack(v) for k, v in x.items()}
    if isinstance(x, list):
        return [unpack(v) for v in x]
    return x


def parse(html):
    """-> (traces, layout) of the chart in a page"""
    i = html.rindex("Plotly.newPlot(")
    dec = json.JSONDecoder()
    i = html.index("[", i)
    data, j = dec.raw_decode(html, i)
    layout, _ = dec.raw_decode(html, html.index("{", j))
    return unpack(data), unpack(layout)


# ------------------------------------------------------------------ readings
TABLES = ["df_prepared", "df_finished_product", "df_throughput", "warm_up_cutoff_time", "df_throughput_with_warum_up_cutoff", "dynamic_thoughput_time_KPIs", "df_aggregated_throughput_time",
          "aggregated_throughput_time_KPIs", "df_aggregated_output_and_throughput", "throughput_and_output_KPIs", "df_aggregated_output", "df_resource_states", "df_resource_states_buckets",
          "df_aggregated_resource_bucket_states", "df_resource_states_buckets_boxplot", "df_aggregated_resource_bucket_states_boxplot", "df_aggregated_resource_states", "df_oee_production_system",
          "df_production_flow_ratio", "machine_state_KPIS", "df_auxiliary_WIP", "df_auxiliary_WIP_per_auxiliary_type", "df_aggregated_auxiliary_WIP", "df_WIP", "df_mean_wip_per_station",
          "df_WIP_per_product", "df_WIP_per_resource", "dynamic_WIP_KPIs", "df_aggregated_WIP", "WIP_KPIs", "auxiliary_WIP_KPIs"]
AUX = {"df_auxiliary_WIP", "df_auxiliary_WIP_per_auxiliary_type", "df_aggregated_auxiliary_WIP", "auxiliary_WIP_KPIs", "plot_auxiliary_WIP"}
METHODS = ["get_aggregated_data", "get_aggregated_throughput_time_data", "get_aggregated_throughput_data", "get_aggregated_wip_data", "get_total_simulation_time", "get_auxiliary_ids", "get_auxiliary_types"]
CHARTS = ["plot_throughput_time_distribution", "plot_line_balance_kpis", "plot_oee", "plot_production_flow_rate_per_product", "plot_boxplot_resource_utilization", "plot_throughput_time_over_time",
          "plot_time_per_state_of_resources", "plot_util_WIP_resource", "plot_transport_utilization_over_time", "plot_WIP_with_range", "plot_WIP", "plot_auxiliary_WIP", "plot_WIP_per_resource"]


def chart(name, pp, vehicles):
    from prodsys.util import kpi_visualization as kv
    f = getattr(kv, name)
    return parse(f(pp, vehicles, return_html=True) if name == "plot_transport_utilization_over_time" else f(pp, return_html=True))


def read(name, pp, vehicles):
    """carries out a reading -> its result"""
    if name in CHARTS:
        return chart(name, pp, vehicles)
    if name == "print_aggregated_data":
        from prodsys.util import kpi_visualization as kv
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            kv.print_aggregated_data(pp)
        return out.getvalue()
    x = getattr(pp, name)
    return x() if name in METHODS else x


def cached(pp):
    return {k: v for k, v in vars(pp).items() if k in TABLES or k == "df_raw"}


@contextlib.contextmanager
def scratch():
    """charts are written into a folder of the working directory"""
    import plotly.basedatatypes as b
    d = tempfile.mkdtemp(prefix="mc_p30_")
    import plotly.io as pio
    old, cwd, html = b.BaseFigure.write_html, os.getcwd(), pio.to_html
    os.chdir(d)
    pio.to_html = lambda fig, *a, **k: html(fig, *a, **dict(k, include_plotlyjs=False))
    b.BaseFigure.write_html = lambda self, file, *a, **k: None
    try:
        yield d
    finally:
        b.BaseFigure.write_html = old
        pio.to_html = html
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ systems
def systems(tier):
    th = tier == "thorough"
    out = {}
    two = functools.partial(suites.two_types, n=4 if th else 3)
    var = lambda sp, *ids: [sp["tm"].__setitem__(i, [3, 7]) for i in ids] and sp
    out["line"] = line(n_prod=4, gap=3, proc=[3, 7], tr=1, machines=("R1", "R2"), plan=("P1", "P2"))
    s = two(n_tr=2)
    out["two types"] = s
    s = two()
    s["tm"]["bd"], s["tm"]["rp"] = {"sched": [6.5, 9], "abs": False, "cyc": True}, 3
    for i in ("R1", "T1"):
        s["states"]["B" + i] = {"kind": "B", "t": "bd", "rep": "rp"}
        s["res"][i]["states"] = ["B" + i]
    out["breakdowns"] = s
    for f, n in (("aux", 3), ("setup", 2), ("rework", 2), ("charge", 1), ("tr", 1)):
        ts = [t for t in suites.FAMILIES[f]("quick") if not t["spec"].get("zero")]
        for t in ts[::max(1, len(ts) // (n * (4 if th else 1)))][:n * (4 if th else 1)]:
            out[t["name"]] = dict(t["spec"], hz=t["horizon"])
    return out


def tasks(tier):
    th = tier == "thorough"
    out = []
    for n, sp in systems(tier).items():
        sp = copy.deepcopy(sp)
        hz = sp.pop("hz", 60)
        for cut in (None, "static_ratio"):
            out.append(dict(name=f"charts/{n}" + ("/cut" if cut else ""), kind="charts", spec=sp, horizon=hz, bound=2 if th else 1, cap=40 if th else 4, cut=cut))
        out.append(dict(name=f"export/{n}", kind="export", spec=sp, horizon=hz, bound=1, cap=20 if th else 3))
    sy = systems(tier)
    aux = [n for n, sp in sy.items() if sp.get("aux")][-1]
    for n in ("two types", "breakdowns", aux):
        for k in range(len(operations(True))):
            if n == aux and not th and operations(True)[k] not in AUX:
                continue
            sp = {k: v for k, v in sy[n].items() if k != "hz"}
            out.append(dict(name=f"order/{n}/{operations(True)[k]}", kind="order", spec=sp, horizon=40, first=k, depth=3 if th and n != aux else 2, cut=None))
    return out


def operations(all_):
    return TABLES + METHODS + CHARTS + ["print_aggregated_data"]


def usable(pp):
    """readings that make sense for a history"""
    aux = bool(pp.get_auxiliary_types())
    ops = [o for o in operations(True) if aux or o not in AUX]
    df = pp.df_throughput
    if df.empty:
        return []
    if any(g.round(9).nunique() < 2 for _, g in df.groupby("Product_type")["Throughput_time"]):
        ops.remove("plot_throughput_time_distribution")
    if df["Start_time"].nunique() < 2:
        ops.remove("plot_throughput_time_over_time")
    return ops


def fresh(tr, cut=None):
    from prodsys.util.post_processing import PostProcessor
    return PostProcessor(df_raw=tr.runner.event_logger.get_data_as_dataframe(), **({"warm_up_cutoff": True, "cut_off_method": cut} if cut else {}))


# ------------------------------------------------------------------ content of the charts
def close(a, b, tol=1e-6):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b):
        nan = lambda v: v is None or isinstance(v, float) and math.isnan(v)
        return nan(a) and nan(b)
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return abs(a - b) <= tol * max(1, abs(a), abs(b))


def order(xs):
    """sorted, missing values first"""
    miss = lambda v: v is None or isinstance(v, float) and math.isnan(v)
    return sorted([None if miss(v) else v for v in xs], key=lambda v: (v is not None, v if v is not None else 0))


def by_name(data):
    out = {}
    for t in data:
        out[t.get("name")] = t
    return out


def expanding(xs):
    out, s = [], 0.0
    for i, x in enumerate(xs):
        s += x
        out.append(s / (i + 1))
    return out


def curves(df, x, y, group):
    """group -> points of the running average in the order of x"""
    out = {}
    for g, d in df.groupby(group):
        d = d.sort_values(x, kind="stable")
        out[g] = (d[x].tolist(), d[y].tolist())
    return out


def same_curve(t, want):
    """A running average over the points, in an order that agrees with x (equal x may come in any order)."""
    xs, ys = want
    if len(t["x"]) != len(xs) or not close(sorted(t["x"]), sorted(xs)) or any(b < a - 1e-9 for a, b in zip(t["x"], t["x"][1:])):
        return False
    got = t["y"]
    # the values that the averages imply
    vals = [got[i] * (i + 1) - (got[i - 1] * i if i else 0) for i in range(len(got))]
    a, b = defaultdict(list), defaultdict(list)
    for x, v in zip(t["x"], vals):
        a[round(x, 6)].append(v)
    for x, v in zip(xs, ys):
        b[round(x, 6)].append(v)
    return set(a) == set(b) and all(close(sorted(a[k]), sorted(b[k]), 1e-5) for k in a)


def check_charts(tr, cut, res):
    """-> [(sig, msg)]"""
    import pandas as pd
    out = []
    pp = fresh(tr, cut)
    ops = usable(pp)
    vehicles = [i for i, r in tr.spec["res"].items() if r.get("transport")]
    machines = [i for i, r in tr.spec["res"].items() if not r.get("transport")]

    def bad(sig, msg):
        out.append((sig, msg))
    for name in [o for o in ops if o in CHARTS]:
        try:
            data, layout = chart(name, fresh(tr, cut), vehicles)
        except Exception as e:
            bad(f"raises/{name}", f"{type(e).__name__}: {str(e)[:200]}")
            continue
        res["transitions"] += 1
        tr_ = by_name(data)
        q = fresh(tr, cut)
        if name == "plot_throughput_time_distribution":
            from scipy.stats import gaussian_kde
            df = q.df_throughput
            want = {g: d.tolist() for g, d in df.groupby("Product_type")["Throughput_time"]}
            lines = by_name([t for t in data if t.get("mode") == "lines"])
            if set(lines) != set(want):
                bad(name, f"shows {sorted(lines)} instead of {sorted(want)}")
                continue
            for g, v in want.items():
                x = lines[g]["x"]
                if not close([min(x), max(x)], [min(v), max(v)], 1e-2) or not close(lines[g]["y"], gaussian_kde(v)(x).tolist(), 1e-6):
                    bad(name, f"{g}: not the density of {v}")
        elif name == "plot_line_balance_kpis":
            df = q.df_throughput_with_warum_up_cutoff if cut else q.df_throughput
            means = df.groupby("Product_type")["Throughput_time"].mean()
            want = [[len(df)], [q.df_aggregated_WIP["Total"]], [means.mean(), df["Throughput_time"].mean()]]
            got = [t["value"] for t in data]
            if len(got) != 3 or any(not any(abs(g - w) <= 0.5 + 1e-9 for w in ws) for g, ws in zip(got, want)) or got[0] != len(df):
                bad(name, f"output, WIP and throughput time {got} instead of {want}")
        elif name == "plot_oee":
            df = q.df_oee_production_system
            want = dict(zip(df["KPI"], df["Value"])) if "KPI" in df else dict(zip(["Availability", "Performance", "Quality", "OEE"], df.iloc[:, -1]))
            got = {t["title"]["text"].split(" ")[0]: t["value"] for t in data}
            if not close([got.get(k) for k in ("Availability", "Performance", "Quality", "OEE")], [want.get(k) for k in ("Availability", "Performance", "Quality", "OEE")]):
                bad(name, f"{got} instead of {want}")
        elif name == "plot_production_flow_rate_per_product":
            df = q.df_production_flow_ratio
            for k in ("Production", "Transport", "Idle"):
                t = tr_.get(k)
                if t is None or not close(dict(zip(t["y"], t["x"])) == {} or sorted(zip(t["y"], t["x"])), sorted(zip(df["Product_type"], df[k + " "].tolist()))):
                    bad(name, f"{k}: {t and list(zip(t['y'], t['x']))} instead of {list(zip(df['Product_type'], df[k + ' ']))}")
        elif name == "plot_boxplot_resource_utilization":
            df = q.df_aggregated_resource_bucket_states_boxplot
            pr = df.loc[df["Time_type"] == "PR"]
            want = {r: pr.loc[pr["Resource"] == r, "percentage"].tolist() or [0] for r in df["Resource"].unique()}
            got = {k: t["y"] for k, t in tr_.items()}
            if set(got) != set(want) or any(not close(order(got[k]), order(want[k])) for k in want):
                bad(name, f"{got} instead of {want}")
        elif name == "plot_throughput_time_over_time":
            want = curves(q.df_throughput, "Start_time", "Throughput_time", "Product_type")
            if set(tr_) != set(want):
                bad(name, f"shows {sorted(tr_)} instead of {sorted(want)}")
                continue
            for g in want:
                if not same_curve(tr_[g], want[g]):
                    bad(name, f"{g}: {tr_[g]['x']}, {tr_[g]['y']} is not the running average of {want[g]}")
            v = [s["x0"] for s in layout.get("shapes", [])]
            if not close(v, [q.warm_up_cutoff_time]):
                bad(name, f"the steady state is marked at {v}, it begins at {q.warm_up_cutoff_time}")
        elif name == "plot_time_per_state_of_resources":
            df = q.df_aggregated_resource_states
            want = {g: dict(zip(d["Resource"], d["percentage"])) for g, d in df.groupby("Time_type")}
            got = {k: dict(zip(t["x"], t["y"])) for k, t in tr_.items()}
            if {k: sorted(v) for k, v in got.items()} != {k: sorted(v) for k, v in want.items()} or any(not close(got[k][r], want[k][r]) for k in want for r in want[k]):
                bad(name, f"{got} instead of {want}")
        elif name == "plot_util_WIP_resource":
            m = q.df_mean_wip_per_station
            want = {r: max(1, math.ceil(w)) for r, w in zip(m["Resource"], m["mean_wip"])}
            bars = next((t for t in data if t["type"] == "bar"), {"x": [], "y": []})
            if dict(zip(bars["x"], bars["y"])) != want:
                bad(name, f"mean WIP {dict(zip(bars['x'], bars['y']))} instead of {want}")
            df = q.df_aggregated_resource_bucket_states
            pr = df.loc[df["Time_type"] == "PR"]
            want = {r: d["percentage"].tolist() for r, d in pr.groupby("Resource")}
            got = {t["name"]: t["y"] for t in data if t["type"] == "box"}
            if set(got) != set(want) or any(not close(order(got[k]), order(want[k])) for k in want):
                bad(name, f"utilisation {got} instead of {want}")
        elif name == "plot_transport_utilization_over_time":
            df = q.df_aggregated_resource_bucket_states
            pr = df.loc[df["Time_type"] == "PR"]
            want = {r: sorted(zip(d["Time"].tolist(), d["percentage"].fillna(-1).tolist())) for r in vehicles for d in [pr.loc[pr["Resource"] == r]]}
            got = {k: sorted(zip(t.get("x", []), [-1 if y is None or y != y else y for y in t.get("y", [])])) for k, t in tr_.items()}
            if set(got) != set(want) or any(not close([list(p) for p in got[k]], [list(p) for p in want[k]]) for k in want):
                bad(name, f"{got} instead of {want}")
        elif name in ("plot_WIP", "plot_WIP_with_range", "plot_WIP_per_resource", "plot_auxiliary_WIP"):
            if name == "plot_auxiliary_WIP":
                total, parts, y, g = q.df_auxiliary_WIP, q.df_auxiliary_WIP_per_auxiliary_type, "auxiliary_WIP", "Auxiliary_type"
            elif name == "plot_WIP_per_resource":
                total, parts, y, g = q.df_WIP, q.df_WIP_per_resource, "WIP", "WIP_resource"
            else:
                total, parts, y, g = q.df_WIP, q.df_WIP_per_product, "WIP", "Product_type"
            want = curves(parts, "Time", y, g)
            want.update(curves(total.assign(all="Total"), "Time", y, "all"))
            if name == "plot_WIP_with_range":
                tr_ = {k: v for k, v in tr_.items() if not k.endswith("Bound")}
            if set(tr_) != set(want):
                bad(name, f"shows {sorted(map(str, tr_))} instead of {sorted(map(str, want))}")
                continue
            for k in want:
                if name == "plot_WIP_with_range":
                    if not close(sorted(tr_[k]["x"]), sorted(want[k][0])):
                        bad(name, f"{k}: times {tr_[k]['x']} instead of {want[k][0]}")
                elif not same_curve(tr_[k], want[k]):
                    bad(name, f"{k}: {tr_[k]['x']}, {tr_[k]['y']} is not the running average of {want[k]}")
    # the printed report
    if ops:
        text = read("print_aggregated_data", fresh(tr, cut), vehicles)
        q = fresh(tr, cut)
        parts = [q.df_aggregated_output_and_throughput, q.df_aggregated_WIP, q.df_aggregated_throughput_time, q.df_aggregated_resource_states.set_index(["Resource", "Time_type"])]
        parts += [q.df_aggregated_auxiliary_WIP] if q.get_auxiliary_types() else []
        if any(str(x) not in text for x in parts):
            bad("print", "a table is missing in the printed report")
    return out


# ------------------------------------------------------------------ exports
def check_export(tr, res, d):
    import pandas as pd
    from prodsys.util.post_processing import PostProcessor
    out = []
    r = tr.runner
    base = fresh(tr)
    names = [o for o in usable(base) if o in TABLES + METHODS]
    want = {n: canon(read(n, fresh(tr), ())) for n in names}
    raw = r.event_logger.get_data_as_dataframe()
    for kind in ("csv", "json"):
        f = os.path.join(d, "results" + kind)
        shutil.rmtree(f, ignore_errors=True)
        getattr(r, f"save_results_as_{kind}")(f)
        fs = os.listdir(f)
        if len(fs) != 1 or not fs[0].endswith("." + kind) or r.adapter.ID not in fs[0]:
            out.append((f"export/{kind}", f"files {fs}"))
            continue
        f = os.path.join(f, fs[0])
        if kind == "csv":
            q = PostProcessor(filepath=f)
            for n in names:
                g, w = (x.replace('""', "null") for x in (canon(read(n, q, ())), want[n]))
                if g != w:
                    out.append((f"export/{n}", f"read back from {kind}: {first_difference(g, w)}"))
        else:
            with open(f) as h:
                got = json.load(h)
            ref = raw.to_dict(orient="records")
            rows = list(got.values()) if isinstance(got, dict) and "Time" not in got else got
            if isinstance(got, dict) and "Time" in got:
                rows = [{k: got[k][i] for k in got} for i in got["Time"]]
            if len(rows) != len(ref) or any(not close(a.get(k), b[k]) for a, b in zip(rows, ref) for k in b):
                out.append(("export/json", f"{len(rows)} rows for {len(ref)} events, or other contents"))
    # events and KPIs of the runner
    p = r.get_performance_data()
    if len(p.event_log) != len(raw):
        out.append(("events", f"{len(p.event_log)} events of {len(raw)}"))
    for e, (_, row) in zip(p.event_log, raw.iterrows()):
        miss = lambda v, d: d if v is None or v != v else v
        if not close([e.time, e.resource, e.state, getattr(e.state_type, "value", e.state_type), getattr(e.activity, "value", e.activity), e.product or "", e.expected_end_time, e.target_location or ""],
                     [row["Time"], row["Resource"], row["State"], getattr(row["State Type"], "value", row["State Type"]), getattr(row["Activity"], "value", row["Activity"]), miss(row["Product"], ""),
                      miss(row["Expected End Time"], -1), miss(row["Target location"], "")]):
            out.append(("events", f"{e} for {dict(row)}"[:300]))
            break
    if names:
        q = fresh(tr)
        ks = [k for n in ("WIP_KPIs", "throughput_and_output_KPIs", "aggregated_throughput_time_KPIs", "machine_state_KPIS") for k in getattr(q, n)]
        if sorted(map(canon, p.kpis)) != sorted(map(canon, ks)):
            out.append(("performance", f"{len(p.kpis)} KPIs, {len(ks)} expected, or other values"))
        if canon(r.get_aggregated_data_simulation_results()) != want["get_aggregated_data"]:
            out.append(("aggregated", "the aggregated results of the runner differ"))
    res["transitions"] += len(names) + 3
    return out


# ------------------------------------------------------------------ order of the readings
def check_order(tr, task, res):
    out = []
    vehicles = [i for i, r in tr.spec["res"].items() if r.get("transport")]
    ops = usable(fresh(tr))
    first = operations(True)[task["first"]]
    if first not in ops:
        return []
    want = {}

    def ref(n):
        if n not in want:
            want[n] = canon(getattr(fresh(tr), n) if n == "df_raw" else read(n, fresh(tr), vehicles))
        return want[n]

    def step(pp, o, hist):
        g = read(o, pp, vehicles)
        res["transitions"] += 1
        if canon(g) != ref(o):
            out.append(("order", f"{hist}: {o} gives {first_difference(canon(g), ref(o))}"))
        for n, v in cached(pp).items():
            if canon(v) != ref(n):
                out.append(("changed", f"{hist} changes {n}: {first_difference(canon(v), ref(n))}"))
        res["states"].add(hash(tuple(sorted(cached(pp)))))
        return not out

    def go(pp, hist, left):
        for o in ops:
            if out:
                return
            q = copy.copy(pp)
            q.__dict__ = {k: v.copy() if hasattr(v, "copy") else copy.deepcopy(v) if isinstance(v, list) else v for k, v in vars(pp).items()}
            res["runs"] += 1
            if step(q, o, hist + [o]) and left > 1:
                go(q, hist + [o], left - 1)
    pp = fresh(tr)
    if step(pp, first, [first]) and step(pp, first, [first, first]) and task["depth"] > 1:
        go(pp, [first], task["depth"] - 1)
    return out


def judge(tr, task, res, d):
    k = task["kind"]
    return check_charts(tr, task["cut"], res) if k == "charts" else check_export(tr, res, d) if k == "export" else check_order(tr, task, res)


def run_task(task, tier):
    res = Result()
    spec = task["spec"]
    t0 = time.time()
    limit = 120 if tier == "quick" else 900
    with scratch() as d:
        for ch, tr in explore(lambda c: simrun.run(spec, c, horizon=task["horizon"], observe=False), task.get("bound", 0), task.get("cap", 1), stop=lambda: time.time() - t0 > limit):
            res["runs"] += 1
            if tr.error:
                continue
            from ..trace import finished
            res["nontrivial"] += len(finished(tr)) > 0
            res["outcomes"].add(hash(simrun.fingerprint(tr)))
            k = task["kind"]
            try:
                v = judge(tr, task, res, d)
            except Exception as e:
                import traceback
                v = [("raises", f"{type(e).__name__}: {str(e)[:200]} {traceback.format_exc()[-300:]}")]
            for sig, msg in v:
                res.violate(sig, msg[:600], choices=list(ch.choices))
            if k != "order":
                res["states"].add(hash(simrun.fingerprint(tr)))
            if not res["samples"]:
                res["samples"].append({"history": task["name"], "events": len(tr.log), "finished": len(finished(tr))})
            if len(res["violations"]) > 5:
                break
    res["capped"] = 0
    return res


def replay(rep):
    from ..explore import Chooser
    task, res = rep["task"], Result()
    with scratch() as d:
        tr = simrun.run(task["spec"], Chooser(rep.get("choices") or []), horizon=task["horizon"], observe=False)
        for sig, msg in judge(tr, task, res, d):
            res.violate(sig, msg)
    return res
