"""P16: KPIs against a reference computed from the event log."""
import math
import time
from collections import defaultdict

from .. import simrun, suites
from ..explore import explore
from ..harness import Result
from ..trace import EPS, by, created, episodes, finished, is_product

LEVEL = "model_checking"
RULE = ("The KPIs of every execution of the scenario families (bounded deviations, several horizons) are compared with a reference "
        "computed from the event log by other means. Non-trivial: at least one product finished.")
ASSUMPTIONS = ["the event log itself is the subject of P15",
               "utilisation is compared for resources with at most one machine breakdown, no process breakdown and no interrupted setup",
               "the mean WIP is an average over logged events, not over time; only the WIP over time is compared"]


def tasks(tier):
    th = tier == "thorough"
    out = []
    share = dict(flow=8, lin=8, disp=6, bd=24, setup=12, rework=8, tr=8, aux=16, batch=5, store=3, charge=6, rand=15, sync=10, plan=4)
    for f, n in share.items():
        ts = suites.FAMILIES[f](tier)
        if f == "bd":
            ts = [t for t in ts if "overlap" not in t["name"]]
        ts = [t for t in ts if not t["spec"].get("zero") and "/room/" not in t["name"]]  # known finding of machines with three or more places
        step = max(1, len(ts) // (n * (6 if th else 2)))
        for i, t in enumerate(ts[::step]):
            if i % 3 == 2:
                t = dict(t, spec=suites.renamed(t["spec"]), name=t["name"] + "/names")
            for hz in ((0.3, 0.55, 1) if th else ((0.35, 1) if i % 2 else (0.6, 1))):
                out.append(dict(name=f"{t['name']}@{hz}", sc=t, horizon=round(t["horizon"] * hz, 2), bound=t["bound"] if th else min(1, t["bound"]),
                                cap=200 if th else (4 if f == "rand" else 2)))
    for cap, gap, pt, n in ((3, 1, 5, 4), (3, 2, 5, 4), (4, 1, 5, 5)):
        sp = suites.line(n_prod=n, gap=gap, proc=pt, machines=("R1",), plan=("P1",), n_tr=4)
        sp["res"]["R1"].update(cap=cap, caps=[cap])
        out.append(dict(name=f"cap{cap}/gap{gap}/proc{pt}", sc={"spec": sp, "name": "x"}, horizon=60, bound=0, cap=1))
    return out


def near(a, b, tol=1e-6):
    return (a is None and b is None) or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def run_task(task, tier):
    res = Result()
    spec = task["sc"]["spec"]
    t0 = time.time()
    for ch, tr in explore(lambda c: simrun.run(spec, c, horizon=task["horizon"], observe=False), task["bound"], task["cap"],
                          stop=lambda: time.time() - t0 > (60 if tier == "quick" else 600)):
        res["runs"] += 1
        res["transitions"] += len(tr.log)
        if tr.error:
            continue
        res["outcomes"].add(hash(simrun.fingerprint(tr)))
        res["nontrivial"] += len(finished(tr)) > 0
        for sig, msg in compare(tr, res):
            res.violate(sig, msg, choices=list(ch.choices))
        if not res["samples"]:
            res["samples"].append({"scenario": task["name"], "finished": len(finished(tr)), "events": len(tr.log)})
        if len(res["violations"]) > 6:
            break
    res["capped"] = 0
    return res


def compare(tr, res):
    out = []
    spec = tr.spec
    pp = tr.runner.get_post_processor()
    fin = {p: t for t, p, _ in finished(tr)}
    cre = {p: t for t, p, _ in created(tr)}
    typ = {p: p.rsplit("_", 1)[0] for p in cre}
    auxt = {v.get("type", k) for k, v in spec["aux"].items()}

    def get(name):
        try:
            return getattr(pp, name)
        except Exception as e:
            out.append((f"raises/{name}", f"{type(e).__name__}: {str(e)[:150]}"))
            return None

    # ---- throughput times and outputs
    df = get("df_throughput")
    if df is not None:
        got = {r["Product"]: (r["Product_type"], r["Start_time"], r["End_time"], r["Throughput_time"]) for _, r in df.iterrows()}
        want = {p: (typ[p], cre[p], t, t - cre[p]) for p, t in fin.items()}
        if set(got) != set(want) or len(df) != len(want):
            out.append(("throughput-products", f"{sorted(got)} instead of {sorted(want)}"))
        else:
            for p in want:
                if got[p][0] != want[p][0] or not all(near(a, b) for a, b in zip(got[p][1:], want[p][1:])):
                    out.append(("throughput-time", f"{p}: {got[p]} instead of {want[p]}"))
        res["states"].add(hash(str(sorted(want.items()))))
    pertype = defaultdict(list)
    for p, t in fin.items():
        pertype[typ[p]].append(t - cre[p])
    mean = {k: sum(v) / len(v) for k, v in pertype.items()}
    ser = get("df_aggregated_throughput_time")
    if ser is not None and not same(dict(ser.items()), mean):
        out.append(("mean-throughput-time", f"{dict(ser.items())} instead of {mean}"))
    if fin:
        avail = max(fin.values()) - min(cre[p] for p in fin)
        want = {k: (len(v), len(v) / avail if avail else None) for k, v in pertype.items()}
        df = get("df_aggregated_output_and_throughput")
        if df is not None and avail:
            got = {i: (r["Output"], r["Throughput"]) for i, r in df.iterrows()}
            if set(got) != set(want) or any(not near(a, b) for k in want for a, b in zip(got[k], want[k])):
                out.append(("output-and-throughput", f"{got} instead of {want}"))
        ser = get("df_aggregated_output")
        if ser is not None and dict(ser.items()) != {k: v[0] for k, v in want.items()}:
            out.append(("output", f"{dict(ser.items())}"))
        ks = get("throughput_and_output_KPIs")
        if ks is not None and avail:
            got = {(k.name.value, k.product_type): k.value for k in ks}
            w = {}
            for t, (o, th) in want.items():
                w["output", t], w["throughput", t] = o, th
            if not same(got, w) or len(ks) != len(w):
                out.append(("output-kpis", f"{got} instead of {w}"))
        ks = get("aggregated_throughput_time_KPIs")
        if ks is not None and not same({k.product_type: k.value for k in ks}, mean):
            out.append(("throughput-time-kpis", f"{[(k.product_type, k.value) for k in ks]} instead of {mean}"))
        if fin and ser is not None:
            order = sorted(pertype)
            if list(pp.get_aggregated_throughput_data()) != [len(pertype[t]) for t in order]:
                out.append(("throughput-list", f"{pp.get_aggregated_throughput_data()}"))
            if not all(near(a, mean[t]) for a, t in zip(pp.get_aggregated_throughput_time_data(), order)):
                out.append(("throughput-time-list", f"{pp.get_aggregated_throughput_time_data()}"))
    ks = get("dynamic_thoughput_time_KPIs")
    if ks is not None:
        got = {k.product: (k.product_type, k.value, k.start_time, k.end_time) for k in ks}
        w = {p: (typ[p], t - cre[p], cre[p], t) for p, t in fin.items()}
        if set(got) != set(w) or any(got[p][0] != w[p][0] or not all(near(a, b) for a, b in zip(got[p][1:], w[p][1:])) for p in w):
            out.append(("dynamic-throughput-kpis", f"{got} instead of {w}"))
    # ---- WIP over time
    df = get("df_WIP")
    if df is not None:
        last = {}
        for t, w in zip(df["Time"], df["WIP"]):
            last[t] = w
        for t, w in sorted(last.items()):
            want = sum(c <= t + EPS for c in cre.values()) - sum(f <= t + EPS for f in fin.values())
            if t > 0 and w != want:
                out.append(("wip", f"at {t}: {w} instead of {want}"))
                break
    df = get("df_WIP_per_product")
    if df is not None and len(df):
        for ty, g in df.groupby("Product_type"):
            last = {}
            for t, w in zip(g["Time"], g["WIP"]):
                last[t] = w
            for t, w in sorted(last.items()):
                want = (sum(c <= t + EPS for p, c in cre.items() if typ[p] == ty)
                        - sum(f <= t + EPS for p, f in fin.items() if typ[p] == ty))
                if t > 0 and w != want:
                    out.append(("wip-per-product", f"{ty} at {t}: {w} instead of {want}"))
                    break
        if set(df["Product_type"]) - set(typ.values()):
            out.append(("wip-product-types", f"{set(df['Product_type'])}"))
        ser = get("df_aggregated_WIP")
        if ser is not None:
            got = dict(ser.items())
            for ty in set(typ.values()) | {"Total"}:
                if ty not in got:
                    out.append(("mean-wip-missing", f"{ty} not in {got}"))
                    continue
                hi = peak(cre, fin, typ, None if ty == "Total" else ty)
                if not -EPS <= got[ty] <= hi + EPS:
                    out.append(("mean-wip-range", f"{ty}: {got[ty]} with at most {hi} in the system"))
            ks = get("WIP_KPIs")
            if ks is not None:
                kg = {("Total" if "all_products" in [c.value for c in k.context] else k.product_type): k.value for k in ks}
                if not same(kg, got):
                    out.append(("wip-kpis", f"{kg} instead of {got}"))
    ks = get("dynamic_WIP_KPIs")
    if ks is not None:
        for ty in {k.product_type for k in ks}:
            mine = sorted((k for k in ks if k.product_type == ty), key=lambda k: k.start_time)
            for k in mine:
                if k.end_time > k.start_time + EPS:
                    want = (sum(c <= k.start_time + EPS for p, c in cre.items() if ty in ("Total", typ[p]))
                            - sum(f <= k.start_time + EPS for p, f in fin.items() if ty in ("Total", typ[p])))
                    if k.value != want:
                        out.append(("dynamic-wip-kpis", f"{ty} {k.start_time}..{k.end_time}: {k.value} instead of {want}"))
                        break
    # ---- auxiliaries in use
    if spec["aux"]:
        use = [(e["t"], e["p"], 1 if e["a"].startswith("started") else -1) for e in tr.log if e["a"] in ("started auxiliary usage", "finished auxiliary usage")]
        for nm, types in (("df_auxiliary_WIP", [None]), ("df_auxiliary_WIP_per_auxiliary_type", sorted(auxt))):
            df = get(nm)
            if df is None:
                continue
            for ty in types:
                g = df if ty is None else df.loc[df["Auxiliary_type"] == ty]
                last = {}
                for t, w in sorted(zip(g.index, zip(g["Time"], g["auxiliary_WIP"]))):
                    last[w[0]] = w[1]
                for t, w in sorted(last.items()):
                    want = sum(d for x, p, d in use if x <= t + EPS and (ty is None or p.rsplit("_", 1)[0] == ty))
                    if t > 0 and w != want:
                        out.append(("auxiliaries-in-use", f"{ty or 'all types'} at {t}: {w} instead of {want}"))
                        break
                for t, p, _ in use:
                    if (ty is None or p.rsplit("_", 1)[0] == ty) and t not in last:
                        out.append(("auxiliaries-in-use", f"{ty or 'all types'}: no value at {t}"))
                        break
        ser = get("df_aggregated_auxiliary_WIP")
        if ser is not None:
            got = dict(ser.items())
            if set(got) - {"Total"} != {e["p"].rsplit("_", 1)[0] for e in tr.log if e["a"] == "created auxiliary"}:
                out.append(("auxiliary-types", f"{sorted(got)}"))
            for ty, x in got.items():
                hi = lo = now = 0
                for t, p, d in use:
                    if ty in ("Total", p.rsplit("_", 1)[0]):
                        now += d
                        hi, lo = max(hi, now), min(lo, now)
                if not lo - EPS <= x <= hi + EPS:
                    out.append(("mean-auxiliaries-in-use", f"{ty}: {x} with {lo} to {hi} in use"))
            ks = get("auxiliary_WIP_KPIs")
            if ks is not None:
                kg = {("Total" if "all_products" in [c.value for c in k.context] else k.product_type): k.value for k in ks}
                if not same(kg, got):
                    out.append(("auxiliary-kpis", f"{kg} instead of {got}"))
    # ---- resource states
    df = get("df_aggregated_resource_states")
    if df is not None and len(df):
        # the time under observation ends with the last event that the utilisation considers
        T = max((e["t"] for e in tr.log if e["ty"] != "ProcessBreakdown"), default=0.0)
        got = defaultdict(dict)
        for _, r in df.iterrows():
            got[r["Resource"]][r["Time_type"]] = (r["time_increment"], r["percentage"])
        for rid, v in spec["res"].items():
            want = states(tr, rid, T)
            if want is None:
                continue
            g = got.get(rid, {})
            for k in ("PR", "SB", "UD", "ST", "CR"):
                a, b = g.get(k, (0.0, 0.0))[0], want.get(k, 0.0)
                if not near(a, b):
                    out.append((f"utilisation-{k}/{rid}", f"{rid}: {k} for {a} of {T}, expected {b} ({ {x: y[0] for x, y in g.items()} } vs {want})"))
                    break
            else:
                tot = sum(want.values())
                if tot > 0:
                    for k, (a, pc) in g.items():
                        if not near(pc, 100 * want.get(k, 0.0) / tot):
                            out.append(("percentage", f"{rid}: {k} {pc}"))
                    if g and not near(sum(x[1] for x in g.values()), 100):
                        out.append(("percentage-sum", f"{rid}: {g}"))
        ks = get("machine_state_KPIS")
        if ks is not None:
            nm = {"standby_time": "SB", "productive_time": "PR", "unscheduled_downtime": "UD", "setup_time": "ST", "charging_time": "CR"}
            kg = {(k.resource, nm.get(k.name.value)): k.value for k in ks}
            w = {(r, k): v[1] for r, d in got.items() for k, v in d.items()}
            if not same(kg, w):
                out.append(("machine-state-kpis", f"{kg} instead of {w}"))
        oee = get("df_oee_production_system")
        if oee is not None:
            ud = [d["UD"][1] for d in got.values() if "UD" in d]
            want = round(100 - (sum(ud) / len(ud) if ud else 0), 2)
            val = dict(zip(oee["KPI"], oee["Value"]))
            if not near(val["Availability"], want, 1e-3) or not near(val["OEE"], want, 1e-3):
                out.append(("oee", f"{val} instead of {want}"))
    # ---- production flow ratio
    if fin and any(e.kind == "Production" and e.p in fin for e in by(tr, "Production")) and any(e.p in fin for e in by(tr, "Transport")):
        df = get("df_production_flow_ratio")
        if df is not None:
            got = {r["Product_type"]: (r["Production "], r["Transport "], r["Idle "]) for _, r in df.iterrows()}
            for ty in pertype:
                ps = [p for p in fin if typ[p] == ty]
                pr = sum(work(tr, p, "Production") for p in ps) / len(ps)
                tp = sum(work(tr, p, "Transport") for p in ps) / len(ps)
                if not any(e.p in ps for e in by(tr, "Production")) or not any(e.p in ps for e in by(tr, "Transport")) or zero_end(tr):
                    continue
                m = mean[ty]
                want = (pr / m * 100, tp / m * 100, (m - pr - tp) / m * 100)
                if ty not in got or not all(near(a, b) for a, b in zip(got[ty], want)):
                    out.append(("flow-ratio", f"{ty}: {got.get(ty)} instead of {want}"))
    # ---- exported events
    try:
        ev = tr.runner.get_event_data_of_simulation()
    except Exception as e:
        out.append(("raises/events", f"{type(e).__name__}: {e}"))
        ev = None
    if ev is not None:
        if len(ev) != len(tr.log):
            out.append(("events", f"{len(ev)} of {len(tr.log)} events"))
        else:
            for a, b in zip(ev, tr.log):
                exp = -1 if b["exp"] is None else b["exp"]
                if (a.time, a.resource, a.state, a.state_type, a.activity, a.product or "", a.expected_end_time, a.target_location or "") != \
                        (b["t"], b["r"], b["s"], b["ty"], b["a"], b["p"] or "", exp, b["d"] or ""):
                    out.append(("events", f"{a} instead of {b}"))
                    break
    return out[:8]


def zero_end(tr):
    """Activities of zero duration log an end only."""
    return any(s == "event-without-start" for s, _ in episodes(tr)[1])


def same(a, b):
    return set(a) == set(b) and all(near(a[k], b[k]) for k in a)


def peak(cre, fin, typ, ty):
    ts = sorted(set(cre.values()))
    return max([sum(c <= t for p, c in cre.items() if ty in (None, typ[p])) - sum(f < t for p, f in fin.items() if ty in (None, typ[p]))
                for t in ts] or [0])


def work(tr, p, kind):
    return sum(e.worked for e in by(tr, kind) if e.p == p and e.t1 is not None)


def states(tr, rid, T):
    """Reference time per state in [0, T] or None where the KPI is not specified."""
    v = tr.spec["res"][rid]
    kinds = [tr.spec["states"][s]["kind"] for s in v.get("states", [])]
    if kinds.count("B") > 1 or "PB" in kinds:
        return None
    eps = [e for e in episodes(tr)[0] if e.r == rid]
    if any(s == "event-without-start" and f"at {rid} " in m for s, m in episodes(tr)[1]):
        return None  # activities of zero duration
    if any(e.kind in ("Setup", "Charging") and e.ints for e in eps):
        return None
    work_ = [e for e in eps if e.kind in ("Production", "Transport")]
    down = [(e.t0, e.t1 if e.t1 is not None else T) for e in eps if e.kind == "Breakdown"]
    setup = [(e.t0, e.t1 if e.t1 is not None else T) for e in eps if e.kind == "Setup"]
    charge = [(e.t0, e.t1 if e.t1 is not None else T) for e in eps if e.kind == "Charging"]
    segs = [(a, b if b is not None else T) for e in work_ for a, b in e.segs]
    # the initial idle time is only visible once an activity of the resource has ended
    if not any(e.t1 is not None for e in eps):
        return None
    if (setup or charge) and v.get("cap", 1) > 1:
        return None
    if any(a < y - EPS and x < b - EPS for a, b in segs for x, y in charge):
        return None  # work while charging: see the finding of P28
    pts = sorted({0.0, T} | {x for iv in (down, setup, charge, segs) for p in iv for x in p if 0 <= x <= T})
    out = defaultdict(float)
    for a, b in zip(pts, pts[1:]):
        m = (a + b) / 2
        k = ("UD" if any(x < m < y for x, y in down) else "ST" if any(x < m < y for x, y in setup) else
             "CR" if any(x < m < y for x, y in charge) else "PR" if any(x < m < y for x, y in segs) else "SB")
        out[k] += b - a
    return dict(out)


def replay(rep):
    from ..explore import Chooser
    res = Result()
    task = rep["task"]
    tr = simrun.run(task["sc"]["spec"], Chooser(rep.get("choices", [])), horizon=task["horizon"], observe=False)
    for e in tr.log:
        print({k: v for k, v in e.items() if v not in (None, "")})
    for sig, msg in compare(tr, res):
        res.violate(sig, msg)
    return res
