"""P29: a battery-powered resource charges exactly when its battery is used up, between two jobs, for the charging time.

Explored on the real simulator: every pattern of working times (bound = number of draws) for schedules of arrivals."""
import itertools

from .. import simcheck, simrun
from ..build import line
from ..trace import EPS, by, endt, tm_domain

LEVEL = "model_checking"
RULE = ("Single machines and vehicles with one or two batteries; every arrival schedule over the stated gaps and every sequence of processing (driving) and charging times over the stated values is run, "
        "and every job and charging phase of the event log is compared with the reference. Non-trivial: at least one charging phase.")
ASSUMPTIONS = ["resources of capacity one, unlimited queues, no breakdowns",
               "judged up to the moment at which a request reaches the resource while it works; what follows is the known finding of the overlap scenarios"]
LEVEL_NEED = 0.9


def jobs(tr, r):
    """[(start, end, planned work, complete, episodes)] of one resource, in order."""
    out, cur = [], []
    for e in sorted((e for e in by(tr, "Production", "Transport") if e.r == r), key=lambda e: e.i0):
        cur.append(e)
        if e.kind == "Production" or not e.e:
            out.append((cur[0].t0, e.t1, sum(x.exp0 - x.t0 for x in cur), e.t1 is not None, cur))
            cur = []
    if cur:
        out.append((cur[0].t0, None, sum(x.exp0 - x.t0 for x in cur), False, cur))
    return out


def horizon_of_judgement(tr, r, js):
    """First instant at which requests and work meet (see ASSUMPTIONS)."""
    machine = not tr.spec["res"][r].get("transport")
    lim = tr.horizon + 1
    snaps = tr.reqs.get(r, [])
    wait = [(a[0], b[0], len(a[2])) for a, b in zip(snaps, snaps[1:] + [(tr.horizon + 1, 0, ())])]
    arrivals = [b[0] for a, b in zip(snaps, snaps[1:]) if {x[0] for x in b[2]} - {x[0] for x in a[2]}]
    firsts = {}
    for t in arrivals:
        firsts[t] = firsts.get(t, 0) + 1
    for t0, t1, _, _, _ in js:
        e = t1 if t1 is not None else tr.horizon
        for t in arrivals:
            # the arrival that starts the job itself is the only one at its start
            if t0 + EPS < t <= e + EPS or (abs(t - t0) < EPS and firsts[t] > 1):
                lim = min(lim, t)
        if machine:
            for a, b, n in wait:
                if n and a < e - EPS and b > e - EPS:
                    lim = min(lim, e)
    return lim


def monitor(strict):
    def mon(tr):
        out = []
        if tr.error or tr.stuck:
            return [("error", str((tr.error or ("stuck",))[:2]))]
        for r, d in tr.spec["res"].items():
            chs = [s for s in d.get("states", []) if tr.spec["states"][s]["kind"] == "CH"]
            js = jobs(tr, r)
            ch = sorted((e for e in by(tr, "Charging") if e.r == r), key=lambda e: e.i0)
            if not chs:
                if ch:
                    out.append((f"charges/{r}", f"{r} has no battery and charges at {ch[0].t0}"))
                continue
            lim = tr.horizon + 1 if strict else horizon_of_judgement(tr, r, js)
            out += judge(tr, r, chs, js, ch, lim)
        return out
    return mon


def judge(tr, r, chs, js, ch, lim):
    spec = tr.spec
    use = dict.fromkeys(chs, 0.0)
    exp, starts = [], []
    # reference: expected charging phases [(state, start)]; the end is read from the log and judged against the charging time
    k = 0
    for n, (t0, t1, work, done, _) in enumerate(js):
        if t0 >= lim - EPS:
            break
        free = exp[-1][2] if exp else 0.0
        if free is None or t0 < free - EPS:
            return [(f"work-while-charging/{r}", f"{r} begins a job at {t0} while it charges (from {exp[-1][1]} to {free})")]
        for s in chs:
            use[s] += work
        if not done or t1 >= lim - EPS:
            break
        now = t1
        for s in chs:
            b = float(spec["tm"][spec["states"][s]["bat"]])
            if use[s] < LEVEL_NEED * b - 1e-9:
                continue
            if k >= len(ch):
                if now >= tr.horizon - EPS:
                    break
                return [(f"no-charge/{r}", f"{r} does not charge at {now} although it used {use[s]} of {b}")]
            c = ch[k]
            if c.s != s or abs(c.t0 - now) > EPS:
                return [(f"charge-start/{r}", f"{r} should charge {s} at {now} (used {use[s]} of {b}), it charges {c.s} at {c.t0}")]
            dom = tm_domain(spec["tm"][spec["states"][s]["t"]])
            want = c.exp0 - c.t0
            if all(abs(want - x) > EPS for x in dom):
                return [(f"charge-plan/{r}", f"{r} charges {s} at {c.t0} for {want}, charging times are {sorted(dom)}")]
            if c.t1 is None:
                if c.t0 + want < tr.horizon - EPS:
                    return [(f"charge-end/{r}", f"{r} charges {s} from {c.t0}, planned {want}, without an end")]
                exp.append((s, c.t0, None))
                k += 1
                break
            if abs(c.t1 - c.t0 - want) > EPS:
                return [(f"charge-time/{r}", f"{r} charges {s} from {c.t0} to {c.t1}, planned {want}")]
            use[s] = 0.0
            now = c.t1
            exp.append((s, c.t0, c.t1))
            k += 1
        # a request that waits at the end of charging is served at once
        if now > t1 + EPS and now < min(lim, tr.horizon) - EPS and not any(s["kind"] == "S" for s in spec["states"].values()):
            pend = [q for q in tr.reqs[r] if q[0] < now - EPS]
            if pend and pend[-1][2] and (n + 1 >= len(js) or js[n + 1][0] > now + EPS):
                return [(f"idle-after-charge/{r}", f"{r} ends charging at {now}, {len(pend[-1][2])} requests wait, next job at {js[n + 1][0] if n + 1 < len(js) else None}")]
    extra = [c for c in ch[k:] if c.t0 < lim - EPS]
    if extra:
        return [(f"charge-early/{r}", f"{r} charges {extra[0].s} at {extra[0].t0} (used {use})")]
    return []


def tasks(tier):
    th = tier == "thorough"
    out = []

    def add(name, s, **kw):
        drive = not name.startswith(("machine", "two/machine", "setup", "varied"))
        out.append({"name": name, "spec": s, "bound": (4 if th else 2) if drive else 99, "cap": 6000, "horizon": 200, **kw})

    def battery(s, r, bat, chg, name="CH"):
        s["tm"].update({"bat" + name: bat, "chg" + name: chg})
        s["states"][name] = {"kind": "CH", "t": "chg" + name, "bat": "bat" + name}
        s["res"][r].setdefault("states", []).append(name)

    n = 5 if th else 4
    for bat, chg in itertools.product((5, 10, 20), (1, 7)):
        for gaps in itertools.product((4, 11, 23), repeat=n - 1):
            if not th and len(set(gaps)) > 2:
                continue
            times = [1 + sum(gaps[:i]) for i in range(n)]
            s = line(n_prod=n, proc=[2, 3, 9], tr=0.5)
            s["tm"]["arr"]["sched"] = times
            battery(s, "R1", bat, chg)
            add(f"machine/b{bat}/c{chg}/{'-'.join(map(str, gaps))}", s)
    m = 4 if th else 3
    for bat, chg in itertools.product((5, 10, 20), (1, 7)):
        for gaps in itertools.product((5, 13, 31), repeat=m - 1):
            s = line(n_prod=m, proc=0.5, tr=[2, 4.5])
            s["tm"]["arr"]["sched"] = [1 + sum(gaps[:i]) for i in range(m)]
            battery(s, "T1", bat, chg)
            add(f"vehicle/b{bat}/c{chg}/{'-'.join(map(str, gaps))}", s)
    for bat, bat2 in ((5, 10), (10, 5), (10, 10), (20, 5)):
        for gap in (11, 23):
            s = line(n_prod=n, gap=gap, proc=[2, 3, 9], tr=0.5)
            battery(s, "R1", bat, 4, "CH")
            battery(s, "R1", bat2, 2, "CI")
            add(f"two/machine/{bat}/{bat2}/{gap}", s)
            s = line(n_prod=m, gap=gap, proc=0.5, tr=[2, 4.5])
            battery(s, "T1", bat, 4, "CH")
            battery(s, "T1", bat2, 2, "CI")
            add(f"two/vehicle/{bat}/{bat2}/{gap}", s)
    for bat in (5, 10):
        # charging times that vary, machine and vehicles with batteries of their own
        s = line(n_prod=n, gap=17, proc=[4, 9], tr=0.5)
        battery(s, "R1", bat, [1, 6])
        add(f"varied/machine/{bat}", s)
        s = line(n_prod=m, gap=9, proc=[2, 9], tr=[1, 3], machines=("R1", "R2"), plan=("P1",), n_tr=2, heur="FIFO")
        battery(s, "R1", bat, 3)
        battery(s, "T1", bat, 5, "CI")
        battery(s, "T2", 2 * bat, 2, "CJ")
        add(f"own/{bat}", s)
        # setups take time and no charge; loading and unloading are part of a drive
        s = line(n_prod=n, gap=19, proc={"P1": [2, 3], "P2": 4}, tr=0.5, procs={"P1": {"t": "tp_P1"}, "P2": {"t": "tp_P2"}}, plan=("P1", "P2"))
        s["tm"]["su"] = 2.5
        s["states"]["S12"] = {"kind": "S", "t": "su", "from": "P1", "to": "P2"}
        s["states"]["S21"] = {"kind": "S", "t": "su", "from": "P2", "to": "P1"}
        s["res"]["R1"]["states"] = ["S12", "S21"]
        battery(s, "R1", bat, 3)
        add(f"setup/{bat}", s)
        s = line(n_prod=m, gap=23, proc=0.5, tr=[1, 2])
        s["tm"].update(ld=[1, 2], ul=1.5)
        s["procs"]["TP"].update(load="ld", unload="ul")
        battery(s, "T1", bat, 3)
        add(f"handling/{bat}", s)
    s = line(n_prod=3, gap=2, proc=9, tr=0.5)
    battery(s, "R1", 10, 3)
    add("overlap/machine", s, strict=True)
    s = line(n_prod=2, gap=3, proc=0.5, tr=4)
    battery(s, "T1", 4, 3)
    add("overlap/vehicle", s, strict=True)
    return out


def need(tr):
    return bool(by(tr, "Charging"))


def run_task(task, tier):
    return simcheck.run_sim_task(task, tier, [monitor(task.get("strict", False))], need=need)


def replay(rep):
    return simcheck.replay_sim(rep, [monitor(rep["task"].get("strict", False))])
