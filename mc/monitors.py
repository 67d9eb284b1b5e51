"""Reference monitors: each maps a Trace to a list of (signature, message).

They only read the public event log, queue contents, product locations and request
lists, and compare them with what the system specification says must happen."""
import bisect
import math

from .trace import (EPS, INF, by, created, episodes, finished, is_product, matches, max_concurrent, ptype,
                    steps_of, tm_domain, tm_mean)


# ---------------------------------------------------------------------- helpers
def no_error(tr):
    if tr.error:
        return [("raised:" + tr.error[0], f"{tr.error[0]}: {tr.error[1]}")]
    return []


def prod_def(spec, pid):
    t = ptype(spec, pid)
    for k, v in spec["prods"].items():
        if v.get("type", k) == t:
            return v
    return None


def _l(v):
    return [v] if isinstance(v, str) else list(v or [])


def queue_owner(spec):
    own = {}
    for r, v in spec["res"].items():
        if not v.get("transport"):
            for q in _l(v.get("in")):
                if q not in spec["stores"]:
                    own.setdefault(q, set()).add(r)
            for q in _l(v.get("out")):
                if q not in spec["stores"]:
                    own.setdefault(q, set()).add(r)
    for r, v in spec["sources"].items():
        for q in _l(v.get("out")):
            own.setdefault(q, set()).add(r)
    for r, v in spec["sinks"].items():
        for q in _l(v.get("in")):
            own.setdefault(q, set()).add(r)
    for s in spec["stores"]:
        own.setdefault(s, set()).add(s)
    return own


def settled(tr):
    """The last snapshot of every instant, with the time of the next event."""
    out = []
    for i, s in enumerate(tr.snaps):
        nxt = tr.snaps[i + 1][0] if i + 1 < len(tr.snaps) else INF
        if nxt > s[0] + EPS:
            out.append((s, nxt))
    return out


def in_hand(tr, s):
    """{resource: [products located there that are in no queue]} for a snapshot."""
    inq = {x for c in s[2] for x in c}
    out = {}
    for p, l in s[3]:
        if p not in inq and l in tr.spec["res"]:
            out.setdefault(l, []).append(p)
    return out


def down_intervals(tr, r):
    return [(e.t0, e.t1 if e.t1 is not None else tr.horizon) for e in by(tr, "Breakdown") if e.r == r]


def pdown_intervals(tr, r, proc=None):
    out = []
    for e in by(tr, "ProcessBreakdown"):
        if e.r == r:
            p = tr.spec["states"][e.s]["proc"] if e.s in tr.spec["states"] else None
            if proc is None or p == proc:
                out.append((e.t0, e.t1 if e.t1 is not None else tr.horizon))
    return out


def covered(t, ivs):
    return any(a - EPS <= t <= b + EPS for a, b in ivs)


def inside(t, ivs):
    return any(a - EPS <= t < b - EPS for a, b in ivs)


def point(spec, i, mode):
    """Location where material is handed over at `i` (mode 'in'/'out') or passed ('via')."""
    for g in ("res", "sources", "sinks"):
        if i in spec[g]:
            v = spec[g][i]
            base = v.get("loc", [9, 9] if g == "sinks" else [0, 0])
            if g == "res" and not v.get("transport"):
                if mode == "in":
                    return list(v.get("in_loc", base))
                if mode == "out":
                    return list(v.get("out_loc", base))
            return list(base)
    if i in spec["stores"]:
        v = spec["stores"][i]
        if mode == "in":
            return list(v.get("in_loc", v["loc"]))
        if mode == "out":
            return list(v.get("out_loc", v["loc"]))
        return list(v["loc"])
    if i in spec["nodes"]:
        return list(spec["nodes"][i])
    return None


def dist(a, b):
    return math.hypot(a[0] - b[0], a[1] - b[1])


def travel(tm, a, b):
    """Deterministic travel time of a leg, None when it is stochastic."""
    if isinstance(tm, (int, float)):
        return float(tm)
    if isinstance(tm, dict) and "dist" in tm:
        sp, re = tm["dist"][:2]
        d = abs(a[0] - b[0]) + abs(a[1] - b[1])  # the documented default metric
        if len(tm["dist"]) > 2 and tm["dist"][2] != "manhattan":
            d = dist(a, b)
        return d / sp + re
    if isinstance(tm, dict) and "manh" in tm:
        return (abs(a[0] - b[0]) + abs(a[1] - b[1])) / tm["manh"][0] + tm["manh"][1]
    return None


# ------------------------------------------------------------------ P01 conservation
def conservation(tr):
    out = []
    spec = tr.spec
    cr, fi = created(tr), finished(tr)
    ids = [p for _, p, _ in cr]
    if len(set(ids)) != len(ids):
        out.append(("duplicate-product-id", f"products {ids}"))
    for src, v in spec["sources"].items():
        tm = spec["tm"][v["t"]]
        if isinstance(tm, dict) and "sched" in tm and tm.get("abs", True) and not tm.get("cyc") and not tr.error:
            want = [t for t in tm["sched"] if t < tr.horizon - EPS]
            got = [t for t, p, r in cr if r == src]
            if len(got) != len(want) or any(abs(a - b) > EPS for a, b in zip(got, want)):
                out.append(("arrivals", f"source {src} created at {got}, planned {want}"))
        for t, p, r in cr:
            if r == src and ptype(spec, p) != v["type"]:
                out.append(("created-type", f"{src} of {v['type']} created {p}"))
    seen = {}
    fin_i = {}
    for i, e in enumerate(tr.log):
        if e["a"] == "created product":
            seen[e["p"]] = i
        elif e["a"] == "finished product":
            if e["p"] not in seen:
                out.append(("finish-before-create", f"{e['p']} finished at {e['t']}"))
            if e["p"] in fin_i:
                out.append(("finished-twice", f"{e['p']} again at {e['t']}"))
            fin_i[e["p"]] = i
            sk = spec["sinks"].get(e["r"])
            if sk is None or sk["type"] != ptype(spec, e["p"]):
                out.append(("wrong-sink", f"{e['p']} finished at {e['r']}"))
        elif e["p"] and is_product(spec, e["p"]):
            if e["p"] not in seen:
                out.append(("event-before-create", f"{e['p']} {e['a']} at {e['t']}"))
            if e["p"] in fin_i:
                out.append(("event-after-finish", f"{e['p']} {e['ty']} {e['a']} at {e['t']} after finishing"))
    own = queue_owner(spec)
    qn = [q.data.ID for q in tr.queues] if hasattr(tr, "queues") else []
    for s, nxt in settled(tr):
        t, nlog, contents, locs = s
        where = {}
        for q, c in zip(qn, contents):
            for p in c:
                where.setdefault(p, []).append(q)
        alive = {p for p, i in seen.items() if i < nlog and (p not in fin_i or fin_i[p] >= nlog)}
        done = {p for p, i in fin_i.items() if i < nlog}
        for p, qs in where.items():
            if len(qs) > 1:
                out.append(("product-in-two-places", f"{p} in {qs} at {t}"))
            if is_product(spec, p) and p not in alive and p not in done:
                out.append(("unknown-product-in-queue", f"{p} in {qs} at {t}"))
        loc = dict(locs)
        for p in alive:
            if p not in loc:
                out.append(("active-product-lost", f"{p} is neither finished nor in the system at {t}"))
                continue
            qs = where.get(p, [])
            if qs:
                if loc[p] not in own.get(qs[0], ()):
                    out.append(("queue-location-mismatch", f"{p} lies in {qs[0]} but is located at {loc[p]} at {t}"))
            elif loc[p] not in spec["res"]:
                out.append(("product-nowhere", f"{p} at {loc[p]} is in no queue at {t}"))
        for p in done:
            if p in loc:
                out.append(("finished-still-active", f"{p} at {t}"))
            sk = spec["sinks"].get(tr.log[fin_i[p]]["r"])
            if sk and (len(where.get(p, [])) != 1 or where[p][0] not in _l(sk.get("in")) and _l(sk.get("in"))):
                out.append(("finished-not-in-sink", f"{p} in {where.get(p)} at {t}"))
        for r, ps in in_hand(tr, s).items():
            cap = spec["res"][r].get("cap", 1) * (spec["res"][r].get("batch") or 1)  # a machine fetches further batches in advance
            if len(ps) > cap:
                out.append(("too-many-in-hand", f"{r} (capacity {cap}) holds {ps} at {t}"))
        if len(out) > 5:
            break
    return out


# ------------------------------------------------------------------ P02 process plans
def plan_edges(plan):
    """-> (set of node names, set of (before, after)) or None for a sequence."""
    if isinstance(plan, dict):
        n = set(plan) | {x for v in plan.values() for x in v}
        return n, {(a, b) for a, v in plan.items() for b in v}
    if plan and isinstance(plan[0], (list, tuple)):
        return {x for e in plan for x in e}, {tuple(e) for e in plan}
    return None


def is_rework(spec, s):
    return spec["procs"].get(s, {}).get("kind") == "RW"


def process_plan(tr):
    if tr.spec.get("zero"):
        return []
    out = []
    spec = tr.spec
    fin = {p: i for i, e in enumerate(tr.log) if e["a"] == "finished product" for p in [e["p"]]}
    for _, pid, _ in created(tr):
        d = prod_def(spec, pid)
        steps = steps_of(tr, pid)
        for a, b in zip(steps, steps[1:]):
            if a.t1 is None or b.t0 < a.t1 - EPS:
                out.append(("steps-overlap", f"{pid}: {a} and {b}"))
        for e in steps:
            r = spec["res"].get(e.r)
            if r is None or e.s not in r["procs"]:
                out.append(("step-not-offered", f"{pid}: {e} at a resource that does not offer it"))
            if e.t1 is None and pid in fin:
                out.append(("finished-during-step", f"{pid}: {e}"))
        plan = d["procs"]
        norm = [e for e in steps if not is_rework(spec, e.s)]
        g = plan_edges(plan)
        if g is None:
            if len(norm) > len(plan):
                out.append(("too-many-steps", f"{pid} plan {plan}, did {[e.s for e in norm]}"))
            for want, e in zip(plan, norm):
                if not matches(spec, want, e.s):
                    out.append(("wrong-order", f"{pid} plan {plan}, did {[e.s for e in norm]}"))
                    break
            if pid in fin and len(norm) != len(plan):
                out.append(("finished-incomplete", f"{pid} plan {plan}, did {[e.s for e in norm]}"))
        else:
            nodes, edges = g
            order = [e.s for e in norm]
            if len(set(order)) != len(order) or not set(order) <= nodes:
                out.append(("step-repeated-or-unplanned", f"{pid} plan {plan}, did {order}"))
            pos = {s: i for i, s in enumerate(order)}
            for a, b in edges:
                if b in pos and (a not in pos or pos[a] > pos[b]):
                    out.append(("precedence-violated", f"{pid} plan {plan}, did {order}: {a} must precede {b}"))
            if pid in fin and set(order) != nodes:
                out.append(("finished-incomplete", f"{pid} plan {plan}, did {order}"))
    return out


# ------------------------------------------------------------------ P03 rework
def failures(tr):
    """{index of a step: whether it failed}, from the weighted yes/no draws, or None when they cannot be told apart."""
    spec = tr.spec
    ends = sorted((e for e in by(tr, "Production") if e.t1 is not None and not is_rework(spec, e.s)
                   and spec["procs"].get(e.s, {}).get("fail", 0) > 0), key=lambda e: e.t1)
    coins = list(tr.ch.coins)
    if len(ends) != len(coins):
        return None
    out = {}
    i = 0
    while i < len(ends):
        j = i
        while j < len(ends) and ends[j].t1 <= ends[i].t1 + EPS:
            j += 1
        if len(set(coins[i:j])) > 1:
            return None
        for e in ends[i:j]:
            out[e.i0] = coins[i]
        i = j
    return out


def rework(tr):
    out = []
    spec = tr.spec
    known = failures(tr)
    tr.failures_known = known is not None
    fin = {e["p"] for e in tr.log if e["a"] == "finished product"}
    for _, pid, _ in created(tr):
        steps = steps_of(tr, pid)
        pending = []  # failed step processes awaiting rework (certain failures only)
        nplan = len(prod_def(spec, pid)["procs"])
        done_plan = 0
        for e in steps:
            if is_rework(spec, e.s):
                of = spec["procs"][e.s]["of"]
                cands = [x for x in pending if x in of]
                maybe = known is None and any(0 < spec["procs"][x].get("fail", 0) < 1 for x in of)
                if not cands and not maybe:
                    out.append(("rework-without-failure", f"{pid}: {e} after {[x.s for x in steps]}"))
                elif not cands:
                    done = [x.s for x in steps if x.t1 is not None and x.t1 <= e.t0 + EPS]
                    nf = sum(done.count(x) for x in of)
                    nr = sum(1 for x in steps if x.i0 < e.i0 and is_rework(spec, x.s) and spec["procs"][x.s]["of"] == of)
                    if nf <= nr:
                        out.append(("more-reworks-than-steps", f"{pid}: {[x.s for x in steps]}"))
                if cands:
                    pending.remove(cands[0])
                if not spec["procs"][e.s]["blocking"] and done_plan < nplan:
                    out.append(("nonblocking-rework-too-early", f"{pid}: {e.s} before the plan is complete: {[x.s for x in steps]}"))
            else:
                done_plan += 1
                bl = [x for x in pending if blocking_for(spec, x)]
                if bl:
                    out.append(("blocking-rework-skipped", f"{pid}: {e.s} starts although {bl} needs rework first: {[x.s for x in steps]}"))
                if e.t1 is not None and (known[e.i0] if known is not None and e.i0 in known else spec["procs"].get(e.s, {}).get("fail", 0) >= 1):
                    pending.append(e.s)
        if pid in fin and pending:
            out.append(("finished-without-rework", f"{pid}: {[x.s for x in steps]} leaves {pending}"))
    return out


def blocking_for(spec, proc):
    """Does any rework process of `proc` block?"""
    return any(v["blocking"] for v in spec["procs"].values() if v.get("kind") == "RW" and proc in v["of"])


# ------------------------------------------------------------------ P04 capacity
def capacity(tr):
    out = []
    spec = tr.spec
    for r, v in spec["res"].items():
        cap = v.get("cap", 1)
        kind = "Transport" if v.get("transport") else "Production"
        eps = [e for e in by(tr, kind) if e.r == r]
        caps = v.get("caps", [cap] * len(v["procs"]))
        for p, c in zip(v["procs"], caps):
            iv = [(e.t0, e.t1 if e.t1 is not None else tr.horizon) for e in eps if e.s == p]
            m = max_concurrent(iv)
            if m > c:
                out.append(("process-capacity", f"{r}: {m} simultaneous {p} with capacity {c}"))
        m = max_concurrent([(e.t0, e.t1 if e.t1 is not None else tr.horizon) for e in eps])
        if m > cap:
            out.append(("resource-capacity", f"{r}: {m} simultaneous processes with capacity {cap}"))
    for s, nxt in settled(tr):
        for r, ps in in_hand(tr, s).items():
            if len(ps) > spec["res"][r].get("cap", 1) * (spec["res"][r].get("batch") or 1):
                out.append(("held-products", f"{r} (capacity {spec['res'][r].get('cap', 1)}) holds {ps} at {s[0]}"))
                return out
    return out


# ------------------------------------------------------------------ P05 buffers
def buffers(tr):
    out = []
    spec = tr.spec
    if not hasattr(tr, "queues"):
        return out
    caps = dict(spec["queues"])
    caps.update({k: v.get("cap", 0) for k, v in spec["stores"].items()})
    qn = [q.data.ID for q in tr.queues]
    for s in tr.snaps:
        for q, c in zip(qn, s[2]):
            cap = caps.get(q, 0)
            if cap and len(c) > cap:
                out.append(("buffer-overfull", f"{q} (capacity {cap}) holds {list(c)} at {s[0]}"))
        if len(out) > 3:
            return out
    legs = [e for e in by(tr, "Transport") if e.e is False]
    for s, nxt in settled(tr):
        t = s[0]
        if nxt == INF:
            continue
        loc = dict(s[3])
        for r, ps in in_hand(tr, s).items():
            if not spec["res"][r].get("transport"):
                continue
            for p in ps:
                if any(e.p == p and e.r == r and e.t0 - EPS <= t and (e.t1 is None or t < e.t1 - EPS) for e in legs):
                    continue
                if inside(t, down_intervals(tr, r)):
                    continue
                out.append(("transporter-blocked", f"{r} still holds {p} at {t} although its journey is over"))
        if len(out) > 3:
            return out
    return out


# ------------------------------------------------------------------ P06 breakdowns
def breakdowns(tr):
    out = []
    spec = tr.spec
    eps = episodes(tr)[0]
    for r, v in spec["res"].items():
        down = down_intervals(tr, r)
        for e in eps:
            if e.r != r or e.kind not in ("Production", "Transport", "Setup", "Charging"):
                continue
            blocked = list(down)
            if e.kind == "Production":
                blocked += pdown_intervals(tr, r, e.s)
            if e.kind == "Setup":
                blocked += pdown_intervals(tr, r)
            for a, b in e.segs:
                b = tr.horizon if b is None else b
                for x, y in blocked:
                    if min(b, y) - max(a, x) > EPS:
                        out.append(("works-while-down", f"{r}: {e.kind} {e.s} works {a}..{b} during downtime {x}..{y}"))
            for a, b in e.ints:
                if not any(abs(a - x) < EPS for x, _ in blocked):
                    out.append(("interrupt-without-breakdown", f"{r}: {e.s} interrupted at {a}; downtimes {blocked}"))
                # resume exactly when the union of downtimes that contains `a` ends (at the instant between two that only touch, either is right)
                ends, end = [], a
                while True:
                    over = [y for x, y in blocked if y > end + EPS and (x < end - EPS or (end == a and x <= end + EPS))]
                    if not over:
                        ends.append(end)
                        over = [y for x, y in blocked if y > end + EPS and abs(x - end) <= EPS]
                    if not over:
                        break
                    end = max(over)
                if b is None:
                    if end < tr.horizon - EPS and e.t1 is None:
                        out.append(("never-resumes", f"{r}: {e.s} of {e.p} interrupted at {a}, down until {end}"))
                elif not any(abs(b - x) <= EPS for x in ends):
                    out.append(("resume-time", f"{r}: {e.s} of {e.p} interrupted at {a} resumes at {b}, down until {ends}"))
            # remaining work is preserved
            if e.t1 is not None:
                w = sum(b - a for a, b in e.segs)
                want = e.exps[0][1] - e.exps[0][0]
                if abs(w - want) > 1e-4:
                    out.append(("work-not-preserved", f"{r}: {e.s} of {e.p} needs {want} but worked {w} ({e.segs})"))
        # the up- and downtimes follow their time models
        for sid in v.get("states", []):
            st = spec["states"][sid]
            if st["kind"] not in ("B", "PB"):
                continue
            es = [e for e in eps if e.r == r and e.s == sid]
            out += _updown(tr, spec, r, sid, st, es)
    return out


def seq_of(tm, n):
    """The first n values of a deterministic time model, None otherwise."""
    if isinstance(tm, (int, float)):
        return [float(tm)] * n
    if isinstance(tm, dict) and "sched" in tm and not tm.get("abs", True) and tm.get("cyc"):
        s = tm["sched"]
        return [float(s[i % len(s)]) for i in range(n)]
    return None


def _updown(tr, spec, r, sid, st, es):
    out = []
    up, rep = spec["tm"][st["t"]], spec["tm"][st["rep"]]
    ud, rd = tm_domain(up), tm_domain(rep)
    last = 0.0
    seq_u, seq_r = seq_of(up, len(es) + 1), seq_of(rep, len(es) + 1)
    pb = st["kind"] == "PB"
    # a process breakdown waits for another one of the same process; only checked alone
    alone = sum(1 for x in spec["res"][r]["states"] if spec["states"][x]["kind"] == "PB"
                and pb and spec["states"][x]["proc"] == st["proc"]) <= 1
    for i, e in enumerate(es):
        gap = e.t0 - last
        if alone:
            if seq_u is not None and abs(gap - seq_u[i]) > EPS:
                out.append(("uptime", f"{r}/{sid}: breakdown {i} after {gap}, planned {seq_u[i]}"))
            elif ud is not None and not any(abs(gap - x) < EPS for x in ud):
                out.append(("uptime", f"{r}/{sid}: breakdown {i} after {gap}, possible {sorted(ud)}"))
        if e.t1 is None:
            break
        d = e.t1 - e.t0
        if seq_r is not None and abs(d - seq_r[i]) > EPS:
            out.append(("repair-time", f"{r}/{sid}: repair {i} took {d}, planned {seq_r[i]}"))
        elif rd is not None and not any(abs(d - x) < EPS for x in rd):
            out.append(("repair-time", f"{r}/{sid}: repair {i} took {d}, possible {sorted(rd)}"))
        last = e.t1
    else:
        if seq_u is not None and alone and not tr.error and last + seq_u[len(es)] < tr.horizon - EPS:
            out.append(("missing-breakdown", f"{r}/{sid}: no breakdown at {last + seq_u[len(es)]}"))
    return out


# ------------------------------------------------------------------ P07 setups
def setups(tr):
    out = []
    spec = tr.spec
    for r, v in spec["res"].items():
        sts = [s for s in v.get("states", []) if spec["states"][s]["kind"] == "S"]
        if not sts:
            continue
        eps = [e for e in by(tr, "Production", "Setup", "Transport") if e.r == r]
        sus = [e for e in eps if e.kind == "Setup"]
        pr = [e for e in eps if e.kind != "Setup"]
        for s in sus:
            st = spec["states"].get(s.s)
            if st is None or s.s not in sts:
                out.append(("foreign-setup", f"{r}: {s}"))
                continue
            for p in pr:
                a = (p.t0, p.t1 if p.t1 is not None else tr.horizon)
                b = (s.t0, s.t1 if s.t1 is not None else tr.horizon)
                if min(a[1], b[1]) - max(a[0], b[0]) > EPS:
                    out.append(("production-during-setup", f"{r}: {p} while {s}"))
            for s2 in sus:
                if s2 is not s and min(s.t1 or INF, s2.t1 or INF) - max(s.t0, s2.t0) > EPS:
                    out.append(("setups-overlap", f"{r}: {s} {s2}"))
            w = s.worked
            tm = spec["tm"][st["t"]]
            if s.t1 is not None and isinstance(tm, (int, float)) and abs(w - tm) > EPS:
                out.append(("setup-duration", f"{r}: {s} worked {w}, planned {tm}"))
        # the sequence of productions and setups in start order
        cur = None
        for e in sorted(eps, key=lambda e: (e.i0)):
            if e.kind == "Setup":
                st = spec["states"].get(e.s, {})
                if cur is not None and st.get("from") != cur:
                    out.append(("setup-origin", f"{r}: {e.s} leaves {st.get('from')} although set up for {cur} at {e.t0}"))
                cur = st.get("to")
            else:
                if cur is not None and e.s != cur:
                    out.append(("missing-setup", f"{r}: {e.s} starts at {e.t0} while set up for {cur}"))
                cur = e.s
        order = sorted(eps, key=lambda e: e.i0)
        for a, b in zip(order, order[1:]):
            if a.kind == "Setup" and b.kind == "Setup":
                out.append(("needless-setup", f"{r}: {a.s} directly followed by {b.s} at {b.t0}"))
        for i, e in enumerate(order):
            if e.kind == "Setup" and i == 0:
                out.append(("needless-setup", f"{r}: first activity is {e}"))
    return out


# ------------------------------------------------------------------ P11 liveness
def liveness(tr):
    out = list(no_error(tr))
    spec = tr.spec
    fin = {p for _, p, _ in finished(tr)}
    late = [p for _, p, _ in created(tr) if p not in fin]
    if late and not tr.error:
        out.append(("not-finished", f"{late} not finished at {tr.horizon}; last event at {tr.log[-1]['t'] if tr.log else None}"))
    return out


def work_conserving(tr):
    """No up resource with free capacity leaves a waiting request for a positive time."""
    out = []
    spec = tr.spec
    if not hasattr(tr, "reqs"):
        return out
    st = settled(tr)
    times = [s[0] for s, _ in st]
    for r, v in spec["res"].items():
        down = down_intervals(tr, r) + pdown_intervals(tr, r)
        busy = [(e.t0, e.t1 if e.t1 is not None else tr.horizon) for e in episodes(tr)[0]
                if e.r == r and e.kind in ("Production", "Transport", "Setup", "Charging")]
        cap = v.get("cap", 1)
        simple = len(v["procs"]) == 1 and not v.get("states") and not v.get("batch")
        rq = tr.reqs.get(r, [])
        for i, (t, nlog, ids) in enumerate(rq):
            nxt = rq[i + 1][0] if i + 1 < len(rq) else tr.horizon
            if not ids or nxt - t < EPS:
                continue
            # intervals between settled snapshots inside [t, nxt]
            for j, (s, snx) in enumerate(st):
                a, b = max(s[0], t), min(snx, nxt, tr.horizon)
                if b - a < EPS:
                    continue
                mid = (a + b) / 2
                if any(x - EPS <= mid <= y + EPS for x, y in down):
                    continue
                hand = len(in_hand(tr, s).get(r, []))
                nb = sum(1 for x, y in busy if x - EPS <= mid <= y + EPS)
                if v.get("batch") and len(ids) < v["batch"]:
                    continue
                if (simple and max(hand, nb) < cap) or (hand == 0 and nb == 0):
                    out.append(("idle-with-requests", f"{r} idle {a}..{b} with waiting requests {[x[1] for x in ids]}"))
                    break
            if len(out) > 2:
                return out
    return out


def unrouted(tr):
    """No product waits without an assignment while a machine that offers its next step has a free place in its input queue."""
    out = []
    spec = tr.spec
    if not hasattr(tr, "reqs") or spec["stores"] or spec["aux"] or any(v.get("kind") == "RW" for v in spec["procs"].values()):
        return out
    if any(not isinstance(v["procs"], (list, tuple)) or plan_edges(v["procs"]) for v in spec["prods"].values()):
        return out
    cap = {}
    for r, v in spec["res"].items():
        if not v.get("transport"):
            ins = _l(v.get("in"))
            if len(ins) != 1:
                return out
            cap[r] = spec["queues"][ins[0]]
    if not any(cap.values()):
        return out
    own = queue_owner(spec)
    qn = [q.data.ID for q in tr.queues]
    inq = {_l(spec["res"][r]["in"])[0]: r for r in cap}
    steps, legs = {}, {}
    for e in by(tr, "Production"):
        steps.setdefault(e.p, []).append(e)
    for e in by(tr, "Transport"):
        if is_product(spec, e.p):
            legs.setdefault(e.p, []).append(e)
    vehicles = [r for r, v in spec["res"].items() if v.get("transport")]
    ptr = {r: 0 for r in vehicles}
    for s, nxt in settled(tr):
        t, mid = s[0], s[0] + min(nxt - s[0], 1) / 2
        if min(nxt, tr.horizon) - t < EPS:
            continue
        asked = {}
        for r in vehicles:
            rq = tr.reqs[r]
            while ptr[r] + 1 < len(rq) and rq[ptr[r] + 1][0] <= t + EPS:
                ptr[r] += 1
            for d in rq[ptr[r]][2]:
                asked[d[1]] = d[4]
        where = {x: q for q, c in zip(qn, s[2]) for x in c}
        free = dict(cap)
        unknown = False
        waiting = []
        for p, l in s[3]:
            if not is_product(spec, p):
                continue
            q = where.get(p)
            moving = [e for e in legs.get(p, []) if e.t0 <= t + EPS and (e.t1 is None or e.t1 > t + EPS)]
            if q in inq:
                free[inq[q]] -= 1
            elif p in asked:
                free[asked[p]] = free.get(asked[p], 0) - 1
            elif moving or q is None and l in vehicles:
                # bound for the machine where its next step starts
                step = [e for e in steps.get(p, []) if e.t0 > t + EPS]
                after = [e for e in legs.get(p, []) if e.e is False and e.t0 >= (moving[0].t0 if moving else t) - EPS]
                if step:
                    free[step[0].r] -= 1
                elif after and after[0].t1 is not None and after[0].d in cap:
                    free[after[0].d] -= 1
                else:
                    unknown = True
            elif q is not None:
                waiting.append((p, q))
        if unknown:
            continue
        for p, q in waiting:
            plan = prod_def(spec, p)["procs"]
            k = len([e for e in steps.get(p, []) if e.t1 is not None and e.t1 <= t + EPS])
            if k >= len(plan):
                continue
            for r, c in cap.items():
                if (not c or free[r] > 0) and any(matches(spec, plan[k], h) for h in spec["res"][r]["procs"]):
                    out.append(("unassigned-beside-free-place", f"{p} in {q} waits at {t}..{nxt} for {plan[k]} although {r} has a free place"))
        if len(out) > 2:
            break
    return out


# ------------------------------------------------------------------ P15 event log
def log_wellformed(tr):
    if tr.spec.get("zero"):
        return []  # activities of zero duration log an end only
    out = list(episodes(tr)[1])
    spec = tr.spec
    last = -INF
    states = {}
    for r, v in spec["res"].items():
        for p in v["procs"]:
            states[(r, p)] = "Transport" if v.get("transport") else "Production"
        for s in v.get("states", []):
            states[(r, s)] = {"B": "Breakdown", "PB": "ProcessBreakdown", "S": "Setup", "CH": "Charging"}[spec["states"][s]["kind"]]
    for e in tr.log:
        if e["t"] is None or e["t"] < last - 1e-12:
            out.append(("time-decreases", f"{e}"))
        last = e["t"] if e["t"] is not None else last
        if e["t"] is not None and e["t"] > tr.horizon + EPS:
            out.append(("after-horizon", f"{e}"))
        if e["a"] in ("start state", "end state", "start interrupt", "end interrupt"):
            k = states.get((e["r"], e["s"]))
            if k is None:
                out.append(("unknown-state", f"{e['r']}/{e['s']} {e['a']}"))
            elif k != e["ty"]:
                out.append(("state-type", f"{e['r']}/{e['s']} logged as {e['ty']}, is {k} ({e['a']} at {e['t']})"))
            if e["ty"] in ("Production", "Transport") and not e["p"]:
                out.append(("no-product", f"{e}"))
            if e["ty"] == "Transport":
                known = set(spec["res"]) | set(spec["sources"]) | set(spec["sinks"]) | set(spec["stores"]) | set(spec["nodes"])
                if e["d"] not in known or (e["o"] not in known and e["o"] != "Loading station"):
                    out.append(("transport-places", f"{e}"))
                if e["e"] not in (True, False):
                    out.append(("empty-flag", f"{e}"))
        elif e["a"] == "created product":
            if e["r"] not in spec["sources"] or e["ty"] != "Source":
                out.append(("create-place", f"{e}"))
        elif e["a"] == "finished product":
            if e["r"] not in spec["sinks"] or e["ty"] != "Sink":
                out.append(("finish-place", f"{e}"))
        elif "auxiliary" not in e["a"]:
            out.append(("activity", f"{e}"))
    for e in episodes(tr)[0]:
        for (t, x) in e.exps:
            if x is None or x < t - EPS:
                out.append(("expected-end", f"{e} starts at {t}, expected end {x}"))
        if e.t1 is not None and e.exps and abs(e.exps[-1][1] - e.t1) > 1e-4:
            out.append(("expected-end-missed", f"{e}: last announced end {e.exps[-1][1]}, ended {e.t1}"))
        for (a, b) in e.ints:
            if b is None and e.t1 is not None:
                out.append(("ended-interrupted", f"{e}"))
        if e.t1 is None and not tr.error and e.exps[-1][1] < tr.horizon - EPS and (not e.ints or e.ints[-1][1] is not None):
            out.append(("end-event-missing", f"{e} announced {e.exps[-1][1]}, horizon {tr.horizon}"))
    seen = {}
    for e in tr.log:
        p = e["p"]
        if p is None or not is_product(spec, p):
            continue
        if e["a"] == "created product":
            if p in seen:
                out.append(("created-twice", f"{p} created at {e['t']}, known since {seen[p][0]}"))
            seen[p] = [e["t"], None]
        elif p not in seen:
            out.append(("before-creation", f"{p}: {e['a']} at {e['t']} before its creation"))
            seen[p] = [e["t"], None]
        elif seen[p][1] is not None:
            out.append(("after-finish", f"{p}: {e['a']} at {e['t']}, finished at {seen[p][1]}"))
        if e["a"] == "finished product":
            seen[p][1] = e["t"]
    return (out + logged_places(tr))[:6]


def logged_places(tr):
    """A product is where the log says: at the machine that works on it, on the vehicle of a loaded drive and not on that of an empty one."""
    out = []
    snaps = tr.snaps
    marks = [s[1] for s in snaps]
    for e in episodes(tr)[0]:
        if e.kind not in ("Production", "Transport"):
            continue
        # the last state observed before the end is logged
        i = bisect.bisect_right(marks, e.i1 if e.i1 is not None else len(tr.log)) - 1
        if i < 0 or marks[i] <= e.i0:
            continue
        at = dict(snaps[i][3]).get(e.p)
        if at is None:
            continue
        if (at == e.r) != (e.kind == "Production" or e.e is False):
            out.append(("logged-place", f"{e} (empty: {e.e}): at {snaps[i][0]} {e.p} is at {at}"))
    return out


# ------------------------------------------------------------------ P08 dispatching
def dispatch(tr):
    """Every request leaves the waiting list according to the resource's control policy."""
    out = []
    spec = tr.spec
    if not hasattr(tr, "reqs"):
        return out
    tr.n_choices = 0
    for r, v in spec["res"].items():
        if v.get("batch"):
            continue
        pol = v.get("pol", "FIFO")
        rq = tr.reqs.get(r, [])
        for i in range(1, len(rq)):
            prev, cur = rq[i - 1], rq[i]
            gone = [x for x in prev[2] if x[0] not in {y[0] for y in cur[2]}]
            if not gone:
                continue
            t = cur[0]
            j = i - 1
            while j > 0 and rq[j][0] > t - EPS:
                j -= 1
            old = {x[0] for x in rq[j][2]}  # waiting since an earlier instant
            for g in gone:
                rest = [x for x in cur[2]]
                older = [x for x in rest if x[0] in old]
                if len(rest):
                    tr.n_choices += 1
                if pol == "FIFO":
                    bad = [x for x in rest if x[0] < g[0]]
                elif pol == "LIFO":
                    bad = [x for x in older if x[0] > g[0]]
                elif pol == "SPT":
                    k = lambda x: tm_mean(spec["tm"][spec["procs"][x[2]]["t"]])
                    bad = [x for x in older if k(x) < k(g) - EPS]
                elif pol == "SPT_transport":
                    k = lambda x: _expected(spec, x)
                    bad = [x for x in older if k(x) < k(g) - EPS]
                elif pol.startswith("Nearest_origin"):
                    at = vehicle_point(tr, r, t)
                    if at is None:
                        continue
                    k = lambda x: travel(spec["tm"][spec["procs"][x[2]]["t"]], at, point(spec, x[3], "out"))
                    bad = [x for x in older if k(x) < k(g) - EPS]
                    if not bad:
                        longest = "longest" in pol
                        for x in older:
                            if abs(k(x) - k(g)) < EPS:
                                a, b = qlen_range(tr, g[4], t, longest), qlen_range(tr, x[4], t, longest)
                                if a and b and a[0] == a[1] and b[0] == b[1] and (b[0] > a[0] if longest else b[0] < a[0]):
                                    bad.append(x)
                else:
                    continue
                if bad:
                    out.append((f"policy-{pol}", f"{r} serves {g[1]}/{g[2]} {g[3]}->{g[4]} at {t} before "
                                f"{[(x[1], x[2], x[3], x[4]) for x in bad]} (arrival order {[x[1] for x in rq[j][2]]})"))
            if len(out) > 3:
                return out
    return out


def _expected(spec, x):
    tm = spec["tm"][spec["procs"][x[2]]["t"]]
    d = travel(tm, point(spec, x[3], "out"), point(spec, x[4], "in"))
    return d if d is not None else tm_mean(tm)


def qlen_range(tr, loc, t, outq):
    """(min, max) number of items in the input/output queues of a location at instant t."""
    spec = tr.spec
    if loc in spec["sources"]:
        qs = _l(spec["sources"][loc].get("out")) if outq else []
    elif loc in spec["sinks"]:
        qs = []
    elif loc in spec["res"]:
        qs = _l(spec["res"][loc].get("out" if outq else "in"))
    else:
        return None
    qn = [q.data.ID for q in tr.queues]
    ns = []
    prev = None
    for s in tr.snaps:
        if s[0] > t + EPS:
            break
        n = sum(len(c) for q, c in zip(qn, s[2]) if q in qs)
        if s[0] < t - EPS:
            prev = n
        else:
            ns.append(n)
    if prev is not None:
        ns.append(prev)
    return (min(ns), max(ns)) if ns else None


def vehicle_point(tr, r, t):
    """Where a capacity-one vehicle stands at time t (None while it drives)."""
    spec = tr.spec
    at = list(spec["res"][r].get("loc", [0, 0]))
    for lg in legs(tr, r):
        e = lg["ep"]
        if e.t1 is None or e.t1 > t + EPS:
            return at if e.t0 >= t - EPS else None
        at = lg["to"]
    return at


# ------------------------------------------------------------------ P09 routing
def reachable(spec, tp, a, b):
    """Does a vehicle have a transport process for `tp` whose links (if it has links) connect a and b?"""
    for v in spec["res"].values():
        for h in v["procs"] if v.get("transport") else ():
            if not matches(spec, tp, h):
                continue
            if spec["procs"][h].get("kind") != "L":
                return True
            seen = {a}
            while True:
                new = {y for l in spec["procs"][h]["links"] for x, y in (l, l[::-1]) if x in seen} - seen
                if not new:
                    break
                seen |= new
            if b in seen:
                return True
    return False


def routing(tr):
    out = []
    spec = tr.spec
    srcs = {k: v.get("heur", "FIFO") for k, v in spec["sources"].items()}
    made = {p: (t, r) for t, p, r in created(tr)}
    tr.route_choice = []
    for pid, (t0, src) in made.items():
        d = prod_def(spec, pid)
        heur = srcs[src]
        steps = steps_of(tr, pid)
        plan = d["procs"]
        norm = [e for e in steps if not is_rework(spec, e.s)]
        g = plan_edges(plan)
        wants = {}
        if g is None:
            for w, e in zip(plan, norm):
                wants[e.i0] = w
        dec = t0
        stored = [x for x in by(tr, "Transport") if x.p == pid and x.d in spec["stores"] and not x.e and x.t1 is not None] if spec["stores"] else []
        e_prev = None
        for e in steps:
            dec = max([dec] + [x.t1 for x in stored if x.i0 < e.i0])
            want = wants.get(e.i0, e.s)
            cands = [r for r, v in spec["res"].items() if not v.get("transport")
                     and any(matches(spec, want, h) for h in v["procs"])]
            if e.r not in cands:
                out.append(("unable-resource", f"{pid}: {want} done as {e.s} at {e.r}, able: {cands}"))
            elif not matches(spec, want, e.s):
                out.append(("wrong-process", f"{pid}: {want} done as {e.s} at {e.r}"))
            if not stored:
                at = e_prev.r if e_prev else src
                cands = [r for r in cands if reachable(spec, d["tp"], at, r)]
                if e.r not in cands:
                    out.append(("unreachable-resource", f"{pid}: routed from {at} to {e.r}, reachable: {cands}"))
                    break
            e_prev = e
            free = all(spec["queues"].get(q, 0) == 0 for r in cands for q in _l(spec["res"][r].get("in")))
            plain = not d.get("aux")
            if len(cands) > 1:
                tr.route_choice.append((pid, want, e.r))
                if free and plain:
                    if heur == "FIFO" and e.r != cands[0]:
                        out.append(("fifo-routing", f"{pid}: {want} routed to {e.r}, first able resource is {cands[0]}"))
                    if heur == "shortest_queue":
                        own = qlen_range(tr, e.r, dec, False)
                        for c in cands:
                            o = qlen_range(tr, c, dec, False)
                            if o and own and o[1] < own[0]:
                                out.append(("shortest-queue", f"{pid}: {want} at {dec} routed to {e.r} ({own} waiting), {c} has {o}"))
            if e.t1 is None:
                break
            dec = e.t1
    # vehicle choice
    tvs = [r for r, v in spec["res"].items() if v.get("transport")]
    for e in by(tr, "Transport"):
        pid = e.p
        if not is_product(spec, pid) or pid not in made:
            continue
        tp = prod_def(spec, pid)["tp"]
        if not matches(spec, tp, e.s) or e.s not in spec["res"][e.r]["procs"]:
            out.append(("wrong-transport-process", f"{pid} needs {tp}, moved by {e.s} of {e.r}"))
        able = [r for r in tvs if any(matches(spec, tp, h) for h in spec["res"][r]["procs"])]
        if len(able) > 1 and srcs[made[pid][1]] == "FIFO" and e.r in able \
                and not any(spec["procs"][h].get("kind") == "L" for r in able for h in spec["res"][r]["procs"]) and e.r != able[0]:
            out.append(("fifo-vehicle", f"{pid} moved by {e.r}, first able vehicle is {able[0]}"))
    return out[:5]


# ------------------------------------------------------------------ P10 transport
def legs(tr, r):
    """Annotated legs of a capacity-one vehicle: start/end points, first/last of journey."""
    c = getattr(tr, "_legs", None)
    if c is None:
        c = tr._legs = {}
    if r in c:
        return c[r]
    spec = tr.spec
    eps = sorted((e for e in by(tr, "Transport") if e.r == r), key=lambda e: e.i0)
    out = []
    at = list(spec["res"][r].get("loc", [0, 0]))
    for i, e in enumerate(eps):
        nx = eps[i + 1] if i + 1 < len(eps) else None
        kind = spec["procs"].get(e.s, {}).get("kind", "T")
        if kind == "L":
            last = not (nx and nx.p == e.p and nx.e == e.e) or _arrived(tr, e)
            if nx is None and e.t1 is None:
                last = None
        else:
            last = True
        first = not (out and out[-1]["ep"].p == e.p and out[-1]["ep"].e == e.e and not out[-1]["last"]) if kind == "L" else True
        mode = "via"
        if last:
            mode = "out" if e.e else "in"
        to = point(spec, e.d, mode)
        out.append({"ep": e, "from": at, "to": to, "first": first, "last": last})
        at = to
    c[r] = out
    return out


def _arrived(tr, e):
    """Did the loaded journey end with this leg (item located at its target)?"""
    if e.e or e.t1 is None:
        return False
    for s in tr.snaps:
        if s[0] > e.t1 + EPS:
            break
        if s[0] >= e.t1 - EPS and s[1] > e.i1:
            if dict(s[3]).get(e.p) == e.d:
                return True
    return not is_product(tr.spec, e.p)


def transport(tr):
    out = []
    spec = tr.spec
    made = {p: r for _, p, r in created(tr)}
    where = dict(made)  # product -> place, in log order
    for r, v in spec["res"].items():
        if not v.get("transport") or v.get("cap", 1) != 1:
            continue
        ls = legs(tr, r)
        prev = None
        for lg in ls:
            e = lg["ep"]
            pr = spec["procs"].get(e.s, {})
            if prev is None:
                if e.o != "Loading station":
                    out.append(("first-origin", f"{r}: first leg starts at {e.o}"))
            elif e.o != prev["ep"].d:
                out.append(("discontinuous", f"{r}: leg {e.o}->{e.d} at {e.t0} but vehicle stands at {prev['ep'].d}"))
            if prev is not None and prev["ep"].t1 is not None and e.t0 < prev["ep"].t1 - EPS:
                out.append(("legs-overlap", f"{r}: {prev['ep']} {e}"))
            # duration
            if lg["last"] is not None and lg["to"] is not None and lg["from"] is not None:
                tt = travel(spec["tm"][pr["t"]], lg["from"], lg["to"])
                need = e.exps[0][1] - e.exps[0][0]
                if tt is not None:
                    if e.e is False and lg["first"] and pr.get("load"):
                        tt += tm_mean(spec["tm"][pr["load"]])
                    if e.e is False and lg["last"] and pr.get("unload"):
                        tt += tm_mean(spec["tm"][pr["unload"]])
                    if abs(tt - need) > 1e-6:
                        out.append(("leg-duration", f"{r}: {e.o}->{e.d} at {e.t0} ({'empty' if e.e else 'loaded'}, "
                                    f"{lg['from']}->{lg['to']}) takes {need}, expected {tt}"))
            # an empty drive is only made when the vehicle is not already there
            if e.e is True and prev is not None and e.o == e.d:
                out.append(("needless-empty-leg", f"{r}: {e.o}->{e.d} at {e.t0}"))
            prev = lg
        # an empty journey is followed by the loaded journey of the same item from there
        for a, b in zip(ls, ls[1:]):
            if a["ep"].e and not b["ep"].e:
                if a["ep"].p != b["ep"].p or a["ep"].d != b["ep"].o:
                    out.append(("empty-then-loaded", f"{r}: {a['ep']} then {b['ep']}"))
            if a["ep"].e and b["ep"].e and a["ep"].p != b["ep"].p:
                # on a network a transport from a place to itself makes no leg
                nxt = next((x for x in by(tr, "Production", "Transport") if x.p == a["ep"].p and x.i0 > a["ep"].i0
                            and x is not b["ep"]), None)
                if nxt is None or (nxt.kind == "Production" and nxt.r == a["ep"].d):
                    continue
                out.append(("empty-journey-abandoned", f"{r}: {a['ep']} then {b['ep']}"))
        out += _link_routes(tr, r, ls)
    # product chain
    chain = sorted([e for e in episodes(tr)[0] if e.kind in ("Production", "Transport") and e.p in made
                    and not (e.kind == "Transport" and e.e)], key=lambda e: e.i0)
    for e in chain:
        if e.kind == "Production":
            if where[e.p] != e.r:
                out.append(("produced-elsewhere", f"{e.p} produced at {e.r} at {e.t0}, delivered to {where[e.p]}"))
        else:
            if where[e.p] != e.o and not (e.o == "Loading station" and dist(spec["res"][e.r].get("loc", [0, 0]), point(spec, where[e.p], "via")) <= EPS):
                out.append(("picked-elsewhere", f"{e.p} picked up at {e.o} at {e.t0}, was at {where[e.p]}"))
            where[e.p] = e.d
    for t, p, s in finished(tr):
        if where.get(p) != s:
            out.append(("finished-elsewhere", f"{p} finished at {s}, delivered to {where.get(p)}"))
    return out[:6]


def _link_routes(tr, r, ls):
    out = []
    spec = tr.spec
    jr, cur = [], []
    for lg in ls:
        if spec["procs"].get(lg["ep"].s, {}).get("kind") != "L":
            return out
        if lg["first"] and cur:
            jr.append(cur)
            cur = []
        cur.append(lg)
        if lg["last"]:
            jr.append(cur)
            cur = []
    for j in jr:
        pr = spec["procs"][j[0]["ep"].s]
        links = {frozenset(l) for l in pr["links"]}
        names = [j[0]["ep"].o] + [x["ep"].d for x in j]
        if names[0] == "Loading station":
            if len(names) > 1:
                start = spec["res"][r].get("loc", [0, 0])
                here = sorted(x for x in {x for l in links for x in l} if dist(start, point(spec, x, "via")) <= EPS)
                best = min(dist(start, point(spec, x, "via")) for l in links for x in l)
                if here:
                    # the vehicle stands at a node: its first leg leaves from there
                    if names[1] in here and j[0]["ep"].e:
                        out.append(("needless-empty-leg", f"{r}: drives to {names[1]}, where it stands"))
                    names = [next((x for x in here if frozenset((x, names[1])) in links), here[0])] + names[1:]
                elif dist(start, point(spec, names[1], "via")) > best + EPS:
                    out.append(("first-node", f"{r}: drives from {start} to {names[1]} although a nearer node exists"))
            if names[0] == "Loading station":
                names = names[1:]
        for a, b in zip(names, names[1:]):
            if frozenset((a, b)) not in links:
                out.append(("not-a-link", f"{r}: leg {a}->{b} of {j[0]['ep'].p} is no link"))
        if len(set(names)) != len(names):
            out.append(("route-repeats", f"{r}: {names}"))
        if len(names) > 1:
            emp = j[0]["ep"].e
            got = {}
            for via in (True, False):
                def pt(x, names=names, via=via, emp=emp):
                    if not via and x == names[0]:
                        return point(spec, x, "in" if emp else "out")
                    if not via and x == names[-1]:
                        return point(spec, x, "out" if emp else "in")
                    return point(spec, x, "via")
                got[via] = (sum(dist(pt(a), pt(b)) for a, b in zip(names, names[1:])), _shortest(links, names[0], names[-1], pt))
            if got[False][0] > got[False][1] + 1e-6:
                out.append(("not-shortest", f"{r}: {names} has length {got[False][0]:.3f}, shortest is {got[False][1]:.3f}"))
    return out


def _shortest(links, a, b, pt):
    best = {a: 0.0}
    todo = [a]
    while todo:
        x = todo.pop()
        for l in links:
            if x in l:
                for y in l - {x}:
                    d = best[x] + dist(pt(x), pt(y))
                    if d < best.get(y, INF) - 1e-12:
                        best[y] = d
                        todo.append(y)
    return best.get(b, INF)


# ------------------------------------------------------------------ P12 auxiliaries
def auxiliary(tr):
    out = []
    spec = tr.spec
    if not spec["aux"]:
        return out
    types = {v.get("type", k): (k, v) for k, v in spec["aux"].items()}
    made, use = {}, {}
    for i, e in enumerate(tr.log):
        a = e["a"]
        if a == "created auxiliary":
            made[e["p"]] = e["r"]
        elif a in ("started auxiliary usage", "finished auxiliary usage"):
            use.setdefault(e["p"], []).append((a.split()[0], e["t"], i))
    # quantities
    for ty, (k, v) in types.items():
        for st, q in zip(_l(v["stores"]), v["qty"]):
            n = sum(1 for p, r in made.items() if ptype(spec, p) == ty and r == st)
            if n != q:
                out.append(("aux-quantity", f"{n} of {ty} created in {st}, planned {q}"))
    for p, us in use.items():
        if p not in made:
            out.append(("unknown-aux", p))
        if [u[0] for u in us] != ["started", "finished"] * (len(us) // 2) + ["started"] * (len(us) % 2):
            out.append(("aux-used-twice", f"{p}: {[(u[0], u[1]) for u in us]}"))
    # conservation of auxiliaries
    qn = [q.data.ID for q in tr.queues]
    prev_store = {}
    for s, nxt in settled(tr):
        where = {}
        for q, c in zip(qn, s[2]):
            for x in c:
                if x in made:
                    where.setdefault(x, []).append(q)
        for x, qs in where.items():
            if len(qs) > 1:
                out.append(("aux-in-two-places", f"{x} in {qs} at {s[0]}"))
        for x in made:
            us = [u for u in use.get(x, []) if u[2] < s[1]]
            busy = len(us) % 2 == 1
            if not busy and s[1] > 0 and where.get(x, [made[x]]) != [made[x]]:
                out.append(("aux-not-home", f"{x} free but in {where.get(x)} at {s[0]}"))
            if not busy and s[0] >= 0 and x not in where and s[1] > len(made):
                out.append(("aux-lost", f"{x} free but in no store at {s[0]}"))
        if len(out) > 4:
            return out
    # every product waits for its auxiliary; every auxiliary follows one product
    tl = sorted(by(tr, "Transport"), key=lambda e: e.i0)
    fin = {p: (t, r) for t, p, r in finished(tr)}
    deliveries = [e for e in tl if e.p in made and e.e is False]
    holders = []  # (aux, product, t_attached, t_released)
    for _, pid, src in created(tr):
        need = prod_def(spec, pid).get("aux", [])
        own = sorted((e for e in episodes(tr)[0] if e.p == pid and e.kind in ("Transport", "Production")), key=lambda e: e.i0)
        if not need:
            continue
        if own:
            t0 = own[0].t0
            got = [e for e in deliveries if ptype(spec, e.p) in need and e.t1 is not None and e.t1 <= t0 + EPS and e.d == src]
            if not got:
                out.append(("started-without-aux", f"{pid} moves at {t0} before an auxiliary of {need} reached {src}"))
    # every usage is of a type that some product needs
    for ty, (k, v) in types.items():
        n_use = sum((len(us) + 1) // 2 for p, us in use.items() if ptype(spec, p) == ty)
        if n_use and not any(ty in pd.get("aux", []) for pd in spec["prods"].values()):
            out.append(("aux-of-wrong-type", f"{n_use} usages of {ty}, which no product needs"))
    # simultaneous use never exceeds the stock
    for ty, (k, v) in types.items():
        iv = []
        for _, pid, src in created(tr):
            if ty in prod_def(spec, pid).get("aux", []):
                own = sorted((e for e in episodes(tr)[0] if e.p == pid and e.kind in ("Transport", "Production")), key=lambda e: e.i0)
                if own:
                    iv.append((own[0].t0, fin[pid][0] if pid in fin else tr.horizon))
        m = max_concurrent(iv)
        if m > sum(v["qty"]):
            out.append(("too-many-users", f"{m} products in process with {sum(v['qty'])} of {ty}"))
        # usages: one per product
        n_use = sum((len(us) + 1) // 2 for p, us in use.items() if ptype(spec, p) == ty)
        if n_use > len([1 for _, pid, _ in created(tr) if ty in prod_def(spec, pid).get("aux", [])]):
            out.append(("aux-overused", f"{n_use} usages of {ty}"))
    # transports of auxiliaries: store -> product's place, sink -> home store
    for x, home in made.items():
        ds = [e for e in deliveries if e.p == x]
        for i, e in enumerate(ds):
            if i % 2 == 0 and e.o != home:
                out.append(("aux-origin", f"{x} fetched from {e.o}, stored in {home}"))
            if i % 2 == 1 and (e.d != home or e.o not in spec["sinks"]):
                out.append(("aux-return", f"{x} returned {e.o}->{e.d}, home {home}"))
        us = use.get(x, [])
        for j in range(0, len(us), 2):
            if j + 1 < len(us):
                k = j + 1
                back = ds[k] if k < len(ds) else None
                if back is None or back.t1 is None or abs(back.t1 - us[j + 1][1]) > EPS:
                    out.append(("aux-released-early", f"{x} released at {us[j + 1][1]}, returned {back}"))
    if fin and len(fin) == len(created(tr)) and not tr.error:
        for x, us in use.items():
            if len(us) % 2:
                out.append(("aux-never-returned", f"{x}: {us}"))
    return out[:5]


# ------------------------------------------------------------------ P13 batches
def batches(tr):
    out = []
    spec = tr.spec
    for r, v in spec["res"].items():
        b = v.get("batch")
        if not b:
            continue
        ends = {}
        for x in tr.log:
            if x["r"] == r and x["ty"] == "Production" and x["a"] == "end state":
                ends.setdefault(round(x["t"], 6), []).append(x["p"])
        for t, ps in ends.items():
            if len(ps) % b:
                out.append(("batch-ends", f"{r}: only {ps} end at {t}, batch size {b}"))
        if spec.get("zero"):
            continue
        eps = [e for e in by(tr, "Production") if e.r == r]
        groups = {}
        for e in eps:
            groups.setdefault(round(e.t0, 6), []).append(e)
        for t, g in groups.items():
            if len(g) != b:
                out.append(("batch-size", f"{r} starts {len(g)} products at {t}, batch size {b}"))
            if len({e.s for e in g}) != 1 or len({ptype(spec, e.p) for e in g}) != 1:
                out.append(("batch-mixed", f"{r} at {t}: {g}"))
            if len({e.t1 for e in g}) != 1:
                out.append(("batch-ends", f"{r} at {t}: {g}"))
        if not tr.error:
            arrived = len([1 for e in by(tr, "Transport") if e.e is False and e.d == r and e.t1 is not None])
            ended = [e for e in eps if e.t1 is not None]
            waiting = arrived - len(eps)
            last = max([e.t1 for e in by(tr, "Transport", "Production") if e.t1 is not None] or [0])
            if last < tr.horizon - 10 and not down_intervals(tr, r):
                per = {}
                for e in by(tr, "Transport"):
                    if e.e is False and e.d == r and e.t1 is not None:
                        per[ptype(spec, e.p)] = per.get(ptype(spec, e.p), 0) + 1
                for e in ended:
                    per[ptype(spec, e.p)] -= 1
                for ty, n in per.items():
                    if n >= b:
                        out.append(("batch-not-started", f"{r}: {n} of {ty} wait for ever, batch size {b}"))
    return out[:5]
