"""Scenario families: small systems that exercise every feature of the simulator.

Each function returns a list of tasks {name, spec, bound, cap, horizon, feats}."""
import itertools

from .build import S, line


def T(name, spec, bound=1, cap=300, horizon=80, weight=1, **feats):
    return dict(name=name, spec=spec, bound=bound, cap=cap, horizon=horizon, weight=weight, **feats)


def renamed(spec):
    """The same system with names that share parts with one another, as users give them."""
    names = {}
    for kind, stem in (("prods", "Part"), ("aux", "Part_Tray"), ("res", "Station"), ("sources", "Part_in"), ("sinks", "Part_out"), ("procs", "Station_step"),
                       ("queues", "Station_buffer"), ("stores", "Part_store")):
        for i, k in enumerate(sorted(spec[kind])):
            names[k] = stem + ("" if i == 0 and kind in ("prods", "res") else f"_{'abcdefghijklmnop'[i % 16]}{i // 16 or ''}")
    for k, v in spec["aux"].items():
        if v.get("type", k) not in names:
            names[v["type"]] = "Part_Tray_" + v["type"]

    def go(x):
        if isinstance(x, str):
            return names.get(x, x)
        if isinstance(x, dict):
            return {go(k): go(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [go(v) for v in x]
        return x
    return {k: go(v) for k, v in spec.items()}


def flow(tier):
    """Lines without disturbances: every combination of plan, capacity, buffers, transport."""
    out = []
    th = tier == "thorough"
    plans = [("P1",), ("P1", "P2"), ("P1", "P1")] + ([("P1", "P2", "P1"), ("P1", "P2", "P3")] if th else [])
    machs = [("R1",), ("R1", "R2")]
    caps = [1, 2]
    bufs = [(0, 0), (1, 1), (2, 1)] + ([(1, 2), (1, 0), (0, 1)] if th else [])
    gaps = [1, 4]
    heurs = ["FIFO", "shortest_queue", "random"]
    for plan, m, cap, (iq, oq), gap in itertools.product(plans, machs, caps, bufs, gaps):
        for n_tr in ((1, 2) if th else (1,)):
            if n_tr == 1 and gap == 1 and not th and len(m) == 2 and cap == 2:
                continue
            h = heurs[(len(plan) + len(m) + cap + iq + gap) % 3]
            sp = line(n_prod=3, gap=gap, proc=3, tr=1, machines=m, plan=plan, cap=cap, inq=iq, outq=oq, heur=h, n_tr=n_tr)
            out.append(T(f"flow/{'-'.join(plan)}/{len(m)}m/cap{cap}/in{iq}out{oq}/gap{gap}/{h}/t{n_tr}", sp,
                         bound=2 if th else 1, cap=1500 if th else 60))
    for pol, tpol in itertools.product(("FIFO", "LIFO", "SPT"), ("FIFO", "SPT_transport")):
        sp = two_types(pol, tpol)
        out.append(T(f"flow/two-types/{pol}/{tpol}", sp, bound=2 if th else 1, cap=1500 if th else 80))
    return out


def two_types(pol="FIFO", tpol="FIFO", heur="FIFO", n=2, **over):
    """Two product types with different plans share two machines and one transporter."""
    s = line(n_prod=n, gap=2, proc={"P1": 3, "P2": 2, "P3": 4}, machines=("R1", "R2"), plan=("P1", "P2"),
             procs={"P1": {"t": "tp_P1"}, "P2": {"t": "tp_P2"}, "P3": {"t": "tp_P3"}}, pol=pol, tpol=tpol, heur=heur, **over)
    s["res"]["R1"]["procs"], s["res"]["R1"]["caps"] = ["P1", "P2"], [1, 1]
    s["res"]["R2"]["procs"], s["res"]["R2"]["caps"] = ["P2", "P3"], [1, 1]
    s["tm"]["arrB"] = {"sched": [1.5 + 2 * i for i in range(n)], "abs": True}
    s["prods"]["B"] = {"procs": ["P3", "P2"], "tp": "TP"}
    s["queues"]["src_b"] = 0
    s["queues"]["snk_b"] = 0
    s["sources"]["SRCB"] = {"loc": [0, 5], "type": "B", "t": "arrB", "heur": heur, "out": "src_b"}
    s["sinks"]["SNKB"] = {"loc": [10, 5], "type": "B", "in": "snk_b"}
    return s


def choice_plans(tier):
    """Precedence graphs and lists: every linear extension is reached by exploration."""
    graphs = {
        "list1": ["P1"], "list3": ["P1", "P2", "P3"], "rep": ["P1", "P2", "P1"],
        "adjfork": {"P1": ["P2", "P3"], "P2": [], "P3": []},
        "adjjoin": {"P1": ["P3"], "P2": ["P3"], "P3": []},
        "adjdiamond": {"P1": ["P2", "P3"], "P2": ["P4"], "P3": ["P4"], "P4": []},
        "adjfree": {"P1": [], "P2": [], "P3": []},
        "adjchain": {"P1": ["P2"], "P2": ["P3"], "P3": []},
        "adjtwo": {"P1": ["P2"], "P2": [], "P3": ["P4"], "P4": []},
        "edgechain": [["P1", "P2"], ["P2", "P3"]],
        "edgefork": [["P1", "P2"], ["P1", "P3"]],
        "edgejoin": [["P1", "P3"], ["P2", "P3"]],
        "edgediamond": [["P1", "P2"], ["P1", "P3"], ["P2", "P4"], ["P3", "P4"]],
        "adjN": {"P1": ["P3"], "P2": ["P3", "P4"], "P3": [], "P4": []},
        "adjorder": {"P3": [], "P2": ["P3"], "P1": ["P2"]},
        "adjimplicit": {"P1": ["P2"]},
    }
    out = []
    th = tier == "thorough"
    for gname, plan in graphs.items():
        for mname, machs in (("1m", ("R1",)), ("2m", ("R1", "R2"))):
            names = sorted(plan_processes(plan))
            sp = line(n_prod=2, gap=2, proc=2, machines=machs, plan=names, procs={p: {"t": "tp_" + p} for p in names})
            sp["prods"]["A"]["procs"] = plan
            out.append(T(f"plan/{gname}/{mname}", sp, bound=3 if th else 2, cap=2000 if th else 120))
    return out


def plan_processes(plan):
    if isinstance(plan, dict):
        return set(plan) | {x for v in plan.values() for x in v}
    if plan and isinstance(plan[0], (list, tuple)):
        return {x for e in plan for x in e}
    return set(plan)


def offers(tier):
    """Machines with partial, overlapping and capability-based offers."""
    out = []
    th = tier == "thorough"
    k = dict(bound=2 if th else 1, cap=800 if th else 80)
    sp = line(n_prod=3, gap=2, machines=("R1", "R2"), plan=("P1", "P11"), proc={"P1": 2, "P11": 3})
    sp["res"]["R1"]["procs"], sp["res"]["R1"]["caps"] = ["P1"], [1]
    sp["res"]["R2"]["procs"], sp["res"]["R2"]["caps"] = ["P11"], [1]
    out.append(T("offer/prefix-ids", sp, **k))
    sp = line(n_prod=3, gap=2, machines=("R1", "R2", "R3"), plan=("P11", "P1"), proc={"P1": 2, "P11": 3})
    sp["res"]["R1"]["procs"], sp["res"]["R1"]["caps"] = ["P1"], [1]
    sp["res"]["R2"]["procs"], sp["res"]["R2"]["caps"] = ["P11"], [1]
    sp["res"]["R3"]["procs"], sp["res"]["R3"]["caps"] = ["P11", "P1"], [1, 1]
    out.append(T("offer/prefix-ids-3", sp, **k))
    for heur in ("FIFO", "random", "shortest_queue"):
        procs = {"CA": {"kind": "C", "t": "tp_CA", "cap": "drill"}, "CB": {"kind": "C", "t": "tp_CB", "cap": "drill"},
                 "CC": {"kind": "C", "t": "tp_CC", "cap": "mill"},
                 "RQ": {"kind": "RC", "cap": "drill"}, "RM": {"kind": "RC", "cap": "mill"}}
        sp = line(n_prod=3, gap=2, machines=("R1", "R2", "R3"), plan=("RQ", "RM"), procs={k_: v for k_, v in procs.items()},
                  proc={k_: 2 for k_ in procs}, heur=heur)
        sp["res"]["R1"]["procs"], sp["res"]["R1"]["caps"] = ["CA"], [1]
        sp["res"]["R2"]["procs"], sp["res"]["R2"]["caps"] = ["CC"], [1]
        sp["res"]["R3"]["procs"], sp["res"]["R3"]["caps"] = ["CB", "CC"], [1, 1]
        for x in ("RQ", "RM"):
            sp["tm"].pop("tp_" + x)
        out.append(T(f"offer/capability/{heur}", sp, **k))
    procs = {"P1": {"t": "tp_P1"}, "P2": {"t": "tp_P2"}, "P3": {"t": "tp_P3"}, "CP1": {"kind": "CP", "ids": ["P1", "P2"]},
             "CP2": {"kind": "CP", "ids": ["P3"]}}
    for heur in ("FIFO", "random", "shortest_queue"):
        sp = line(n_prod=3, gap=2, machines=("R1", "R2", "R3"), plan=("CP1", "CP2"), procs=procs,
                  proc={"P1": 2, "P2": 3, "P3": 2, "CP1": 1, "CP2": 1}, heur=heur)
        for x in ("CP1", "CP2"):
            sp["tm"].pop("tp_" + x)
        sp["res"]["R1"]["procs"], sp["res"]["R1"]["caps"] = ["P1", "P3"], [1, 1]
        sp["res"]["R2"]["procs"], sp["res"]["R2"]["caps"] = ["P2"], [1]
        sp["res"]["R3"]["procs"], sp["res"]["R3"]["caps"] = ["P1", "P2"], [1, 1]
        out.append(T(f"offer/compound/{heur}", sp, **k))
    # compound processes that contain capabilities
    for heur, ids in itertools.product(("FIFO", "random", "shortest_queue"), (["RD", "P1"], ["CA", "P1"], ["CA", "CB"])):
        procs = {"P1": {"t": "tp_P1"}, "CA": {"kind": "C", "t": "tp_CA", "cap": "drill"}, "CB": {"kind": "C", "t": "tp_CB", "cap": "mill"},
                 "CD": {"kind": "C", "t": "tp_CD", "cap": "drill"},
                 "RD": {"kind": "RC", "cap": "drill"}, "CP1": {"kind": "CP", "ids": ids}}
        sp = line(n_prod=3, gap=2, machines=("R1", "R2", "R3"), plan=("CP1", "P1"), procs=procs, proc={"P1": 2, "CA": 1, "CB": 3, "CD": 2, "RD": 1, "CP1": 1}, heur=heur)
        for x in ("CP1", "RD"):
            sp["tm"].pop("tp_" + x)
        sp["res"]["R1"]["procs"], sp["res"]["R1"]["caps"] = ["CA", "CB"], [1, 1]
        sp["res"]["R2"]["procs"], sp["res"]["R2"]["caps"] = ["CD"], [1]
        sp["res"]["R3"]["procs"], sp["res"]["R3"]["caps"] = ["P1"], [1]
        out.append(T(f"offer/compound-capability/{'-'.join(ids)}/{heur}", sp, **k))
    # the same capability with different process capacities
    for caps in ((1, 2), (2, 1)):
        sp = line(n_prod=4, gap=1, machines=("R1",), plan=("P1", "P2"), cap=2, proc={"P1": 3, "P2": 2})
        sp["res"]["R1"]["caps"] = list(caps)
        sp["res"]["R1"]["cap"] = 2
        out.append(T(f"offer/process-capacities{caps}", sp, **k))
    return out


def breakdowns(tier):
    """Machine, process and transport breakdowns whose phase sweeps over the schedule."""
    out = []
    th = tier == "thorough"
    k = dict(bound=1, cap=400 if th else 40)
    phases = (1.5, 2, 3, 3.5, 5, 6.5, 8, 11) if th else (2, 3.5, 6, 8)
    reps = (0.5, 2, 5) if th else (0.5, 4)
    for ph, rep in itertools.product(phases, reps):
        sp = line(n_prod=3, gap=2, proc=3, machines=("R1",), plan=("P1", "P2"))
        sp["tm"]["bd"], sp["tm"]["rp"] = {"sched": [ph, ph + 4], "abs": False, "cyc": True}, rep
        sp["states"]["B1"] = {"kind": "B", "t": "bd", "rep": "rp"}
        sp["res"]["R1"]["states"] = ["B1"]
        out.append(T(f"bd/machine/ph{ph}/rep{rep}", sp, **k))
        sp = line(n_prod=3, gap=2, proc=3, tr=2, machines=("R1",), plan=("P1",))
        sp["tm"]["bd"], sp["tm"]["rp"] = {"sched": [ph, ph + 4], "abs": False, "cyc": True}, rep
        sp["states"]["B1"] = {"kind": "B", "t": "bd", "rep": "rp"}
        sp["res"]["T1"]["states"] = ["B1"]
        out.append(T(f"bd/transport/ph{ph}/rep{rep}", sp, **k))
        for cap in (1, 2):
            sp = line(n_prod=3, gap=1, proc=3, machines=("R1",), plan=("P1", "P2"), cap=cap)
            sp["tm"]["bd"], sp["tm"]["rp"] = {"sched": [ph, ph + 4], "abs": False, "cyc": True}, rep
            sp["states"]["PB1"] = {"kind": "PB", "t": "bd", "rep": "rp", "proc": "P1"}
            sp["res"]["R1"]["states"] = ["PB1"]
            out.append(T(f"bd/process/cap{cap}/ph{ph}/rep{rep}", sp, **k))
    # overlaps: two breakdown states / breakdown + process breakdown on one machine
    for (a, ra), (b, rb) in itertools.product(((2, 2), (3, 4), (5, 1)), ((2.5, 3), (3, 4), (4, 6), (6, 0.5))):
        for kinds in (("B", "B"), ("B", "PB"), ("PB", "PB")):
            sp = line(n_prod=3, gap=1, proc=3, machines=("R1",), plan=("P1", "P2"))
            sp["tm"].update(bd1={"sched": [a, 7], "abs": False, "cyc": True}, rp1=ra,
                            bd2={"sched": [b, 9], "abs": False, "cyc": True}, rp2=rb)
            for i, kd in enumerate(kinds, 1):
                st = {"kind": kd, "t": f"bd{i}", "rep": f"rp{i}"}
                if kd == "PB":
                    st["proc"] = "P1" if i == 1 else "P2"
                sp["states"][f"S{i}"] = st
            sp["res"]["R1"]["states"] = ["S1", "S2"]
            out.append(T(f"bd/overlap/{'+'.join(kinds)}/{a},{ra}/{b},{rb}", sp, **k))
    # two breakdowns of the same process
    for (a, ra), (b, rb) in itertools.product(((2, 2), (3, 4), (5, 1)), ((2.5, 3), (3, 4), (4, 6))):
        sp = line(n_prod=3, gap=1, proc=3, machines=("R1",), plan=("P1", "P2"), cap=2)
        sp["tm"].update(bd1={"sched": [a, 7], "abs": False, "cyc": True}, rp1=ra, bd2={"sched": [b, 9], "abs": False, "cyc": True}, rp2=rb)
        sp["states"].update(S1={"kind": "PB", "t": "bd1", "rep": "rp1", "proc": "P1"}, S2={"kind": "PB", "t": "bd2", "rep": "rp2", "proc": "P1"})
        sp["res"]["R1"]["states"] = ["S1", "S2"]
        out.append(T(f"bd/same/{a},{ra}/{b},{rb}", sp, **k))
    # sampled up- and downtimes, machine with capacity two
    for cap in (1, 2):
        sp = line(n_prod=4, gap=1, proc=3, machines=("R1",), plan=("P1",), cap=cap)
        sp["tm"].update(bd=[6, 3, 9], rp=[2, 1])
        sp["states"]["B1"] = {"kind": "B", "t": "bd", "rep": "rp"}
        sp["res"]["R1"]["states"] = ["B1"]
        out.append(T(f"bd/sampled/cap{cap}", sp, bound=3 if th else 2, cap=3000 if th else 300, horizon=50))
    return out


def setups(tier):
    out = []
    th = tier == "thorough"
    k = dict(bound=2 if th else 1, cap=800 if th else 60)
    for nproc, cap, pol, gap in itertools.product((2, 3), (1, 2), ("FIFO", "LIFO", "SPT"), (1, 5)):
        if not th and nproc == 3 and pol != "FIFO":
            continue
        ps = [f"P{i + 1}" for i in range(nproc)]
        sp = line(n_prod=2, gap=gap, machines=("R1",), plan=ps, cap=cap, proc={p: 2 + i for i, p in enumerate(ps)}, pol=pol)
        sp["tm"]["arr"] = {"sched": [1 + i * gap for i in range(2)], "abs": True}
        if nproc == 2:
            sp["tm"]["arrB"] = {"sched": [1.5 + gap * i for i in range(2)], "abs": True}
            sp["prods"]["B"] = {"procs": ["P2"], "tp": "TP"}
            sp["sources"]["SRCB"] = {"loc": [0, 0], "type": "B", "t": "arrB", "heur": "FIFO", "out": "srcb_q"}
            sp["sinks"]["SNKB"] = {"loc": [10, 0], "type": "B", "in": "snkb_q"}
            sp["queues"].update(srcb_q=0, snkb_q=0)
        sids = []
        for i, (a, b) in enumerate((a, b) for a in ps for b in ps if a != b):
            sid = f"SU{a}{b}"
            sp["tm"]["t" + sid] = 1 + 0.5 * i
            sp["states"][sid] = {"kind": "S", "t": "t" + sid, "from": a, "to": b}
            sids.append(sid)
        sp["res"]["R1"]["states"] = sids
        out.append(T(f"setup/{nproc}p/cap{cap}/{pol}/gap{gap}", sp, **k))
        if cap == 1 and pol == "FIFO":
            for ph in (3, 5, 7.5) + ((4, 6, 9) if th else ()):
                import copy
                s2 = copy.deepcopy(sp)
                s2["tm"].update(bd={"sched": [ph, 9], "abs": False, "cyc": True}, rp=2)
                s2["states"]["B1"] = {"kind": "B", "t": "bd", "rep": "rp"}
                s2["res"]["R1"]["states"] = sids + ["B1"]
                out.append(T(f"setup/bd/{nproc}p/gap{gap}/ph{ph}", s2, **k))
            for ph, two in itertools.product((2, 3, 5, 7.5) + ((4, 6, 9) if th else ()), (0, 1, 2)):
                import copy
                s2 = copy.deepcopy(sp)
                s2["tm"].update(bd={"sched": [ph, 9], "abs": False, "cyc": True}, rp=2, bd2={"sched": [ph + 1, 7], "abs": False, "cyc": True}, rp2=3)
                s2["states"]["PB1"] = {"kind": "PB", "t": "bd", "rep": "rp", "proc": "P1"}
                s2["states"]["PB2"] = {"kind": "PB", "t": "bd2", "rep": "rp2", "proc": "P2"} if two == 1 else {"kind": "B", "t": "bd2", "rep": "rp2"}
                s2["res"]["R1"]["states"] = sids + ["PB1"] + (["PB2"] if two else [])
                out.append(T(f"setup/{nproc}p/pb{two}/gap{gap}/{ph}", s2, **k))
    return out + mixed_setups(tier)


def mixed_setups(tier):
    """Several product types, each with one process, that reach a machine with setups at coinciding times."""
    out = []
    th = tier == "thorough"
    k = dict(bound=2 if th else 1, cap=800 if th else 60, horizon=150)
    patterns = {"same": ([1, 9], [1, 9], [1, 9]), "pair": ([1, 9], [1, 9], [5, 10]), "near": ([1, 9], [1.5, 9.5], [2, 10]),
                "burst": ([1, 1.25], [1, 1.25], [1.5, 2]), "late": ([1, 2], [6, 6.25], [6, 6.25])}
    for (pat, arr), cap, pol, st in itertools.product(patterns.items(), (1, 2, 3), ("FIFO", "LIFO", "SPT"), (2, 0.5)):
        if not th and (pol != "FIFO" and (cap == 3 or st != 2)):
            continue
        ps = ["P1", "P2", "P3"]
        s = line(n_prod=2, gap=1, machines=("R1",), plan=("P1",), procs={p: {"t": "tp_" + p} for p in ps}, cap=cap,
                 proc={"P1": 4, "P2": 3, "P3": 3}, n_tr=3, pol=pol)
        s["tm"]["arr"] = {"sched": arr[0], "abs": True}
        for i, p in enumerate(("P2", "P3")):
            c = "BC"[i]
            s["tm"]["arr" + c] = {"sched": arr[1 + i], "abs": True}
            s["prods"][c] = {"procs": [p], "tp": "TP"}
            s["sources"]["SRC" + c] = {"loc": [0, 2 + i], "type": c, "t": "arr" + c, "heur": "FIFO", "out": f"src_{c}"}
            s["sinks"]["SNK" + c] = {"loc": [10, 2 + i], "type": c, "in": f"snk_{c}"}
            s["queues"].update({f"src_{c}": 0, f"snk_{c}": 0})
        sids = []
        for i, (a, b) in enumerate(itertools.permutations(ps, 2)):
            sid = f"SU{a}{b}"
            s["tm"]["t" + sid] = st + (0.25 * i if st != 2 else 0)
            s["states"][sid] = {"kind": "S", "t": "t" + sid, "from": a, "to": b}
            sids.append(sid)
        s["res"]["R1"]["states"] = sids
        out.append(T(f"setup/mixed/{pat}/cap{cap}/{pol}/st{st}", s, **k))
    return out


def rework(tier):
    out = []
    th = tier == "thorough"
    for rate, blocking, nprod, cap in itertools.product((0.0, 0.3, 1.0), (True, False), (1, 2), (1, 2)):
        procs = {"P1": {"t": "tp_P1", "fail": rate}, "P2": {"t": "tp_P2"},
                 "RW": {"kind": "RW", "t": "tp_RW", "of": ["P1"], "blocking": blocking}}
        sp = line(n_prod=nprod, gap=2, machines=("R1",), plan=("P1", "P2"), procs=procs, cap=cap, proc={"P1": 2, "P2": 3, "RW": 1.5})
        out.append(T(f"rework/one/{rate}/{'b' if blocking else 'nb'}/n{nprod}/cap{cap}", sp, bound=3 if th else 2,
                     cap=1000 if th else 150))
        if cap == 1:
            procs = {"P1": {"t": "tp_P1", "fail": rate}, "P2": {"t": "tp_P2", "fail": rate}, "P3": {"t": "tp_P3"},
                     "RW1": {"kind": "RW", "t": "tp_RW1", "of": ["P1"], "blocking": blocking},
                     "RW2": {"kind": "RW", "t": "tp_RW2", "of": ["P2"], "blocking": not blocking}}
            sp = line(n_prod=nprod, gap=2, machines=("R1", "R2"), plan=("P1", "P2", "P3"), procs=procs,
                      proc={"P1": 2, "P2": 3, "P3": 1, "RW1": 1.5, "RW2": 1.5})
            out.append(T(f"rework/two/{rate}/{'b' if blocking else 'nb'}/n{nprod}", sp, bound=3 if th else 2, cap=1000 if th else 150))
            procs = {"P1": {"t": "tp_P1", "fail": rate}, "P2": {"t": "tp_P2", "fail": rate},
                     "RW": {"kind": "RW", "t": "tp_RW", "of": ["P1", "P2"], "blocking": blocking}}
            sp = line(n_prod=nprod, gap=2, machines=("R1",), plan=("P1", "P2"), procs=procs, proc={"P1": 2, "P2": 3, "RW": 1.5})
            out.append(T(f"rework/shared/{rate}/{'b' if blocking else 'nb'}/n{nprod}", sp, bound=3 if th else 2, cap=1000 if th else 150))
            procs = {"P1": {"t": "tp_P1", "fail": rate},
                     "RW1": {"kind": "RW", "t": "tp_RW1", "of": ["P1"], "blocking": blocking},
                     "RW2": {"kind": "RW", "t": "tp_RW2", "of": ["P1"], "blocking": blocking}}
            sp = line(n_prod=nprod, gap=2, machines=("R1",), plan=("P1", "P1"), procs=procs, proc={"P1": 2, "RW1": 1, "RW2": 1.5})
            out.append(T(f"rework/alt/{rate}/{'b' if blocking else 'nb'}/n{nprod}", sp, bound=3 if th else 2, cap=1000 if th else 150))
    plans = {"rep": ["P1", "P1"], "rep3": ["P1", "P2", "P1", "P2"], "free": {"P1": [], "P2": [], "P3": []},
             "fork": {"P1": ["P2", "P3"], "P2": [], "P3": []}, "chain": {"P1": ["P2"], "P2": ["P3"], "P3": []}}
    for (nm, plan), blocking, place, rate in itertools.product(plans.items(), (True, False), ("same", "own", "two"), (0.4, 1.0)):
        names = list(plan) if isinstance(plan, dict) else list(dict.fromkeys(plan))
        procs = {p: {"t": "tp_" + p, "fail": rate if p != "P3" else 0} for p in names}
        procs["RW"] = {"kind": "RW", "t": "tp_RW", "of": names[:2], "blocking": blocking}
        ms = {"same": ("R1",), "own": ("R1", "RWK"), "two": ("R1", "R2")}[place]
        sp = line(n_prod=2, gap=2, machines=ms, plan=("P1",), procs=procs, proc={**{p: 2 for p in names}, "RW": 1.5}, n_tr=1 + (place == "two"))
        sp["prods"]["A"]["procs"] = plan
        if place == "own":
            sp["res"]["R1"].update(procs=names, caps=[1] * len(names))
            sp["res"]["RWK"].update(procs=["RW"], caps=[1])
        out.append(T(f"rework/{nm}/{'b' if blocking else 'nb'}/{place}/{rate}", sp, bound=3 if th else 2, cap=1000 if th else 60, horizon=120))
    # failures in batches
    for blocking, size, rate in itertools.product((True, False), (2, 3), (0.4, 1.0)):
        procs = {"P1": {"t": "tp_P1", "fail": rate}, "P2": {"t": "tp_P2"}, "RW": {"kind": "RW", "t": "tp_RW", "of": ["P1"], "blocking": blocking}}
        sp = line(n_prod=2 * size, gap=1, machines=("R1", "R2"), plan=("P1", "P2"), procs=procs, proc={"P1": 2, "P2": 1, "RW": 1}, n_tr=2)
        sp["res"]["R1"].update(procs=["P1"], caps=[size], cap=size, batch=size, ctrl="BatchController")
        sp["res"]["R2"].update(procs=["P2", "RW"], caps=[1, 1])
        out.append(T(f"rework/batch{size}/{'b' if blocking else 'nb'}/{rate}", sp, bound=3 if th else 2, cap=1000 if th else 60, horizon=120))
    # processes with capabilities, two machines of different speed
    for blocking, rate in itertools.product((True, False), (0.4, 1.0)):
        procs = {"C1": {"kind": "C", "t": "tp_C1", "cap": "x", "fail": rate}, "C2": {"kind": "C", "t": "tp_C2", "cap": "x"}, "RQ": {"kind": "RC", "cap": "x"},
                 "RW": {"kind": "RW", "t": "tp_RW", "of": ["C1"], "blocking": blocking}}
        sp = line(n_prod=3, gap=1, machines=("R1", "R2"), plan=("RQ", "RQ"), procs=procs, proc={"C1": 2, "C2": 3, "RQ": 1, "RW": 1}, heur="random")
        sp["res"]["R1"].update(procs=["C1", "RW"], caps=[1, 1])
        sp["res"]["R2"].update(procs=["C2"], caps=[1])
        out.append(T(f"rework/cap/{'b' if blocking else 'nb'}/{rate}", sp, bound=3 if th else 2, cap=1000 if th else 60, horizon=120))
    return out


def transports(tier):
    """Transport: distance-based times, loading, several vehicles, links, in/out locations."""
    out = []
    th = tier == "thorough"
    k = dict(bound=2 if th else 1, cap=800 if th else 60)
    for (sp_, re_), (ld, ul), n_tr, tpol in itertools.product(((2, 0), (1, 1), (2.5, 0.5)), ((None, None), (1, None), (None, 2), (1, 2)),
                                                             (1, 2), ("FIFO", "SPT_transport")):
        if not th and (n_tr == 2) != (tpol == "SPT_transport"):
            continue
        s = line(n_prod=3, gap=2, proc=3, tr={"dist": [sp_, re_]}, machines=("R1", "R2"), plan=("P1", "P2"), n_tr=n_tr, tpol=tpol)
        for p, v in (("load", ld), ("unload", ul)):
            if v is not None:
                s["tm"][p] = v
                s["procs"]["TP"][p] = p
        s["res"]["R1"].update(in_loc=[4, 0], out_loc=[6, 1])
        s["res"]["R2"].update(procs=["P2"], caps=[1])
        s["res"]["R1"].update(procs=["P1"], caps=[1])
        out.append(T(f"tr/dist{sp_},{re_}/load{ld},{ul}/t{n_tr}/{tpol}", s, horizon=200, **k))
    for man in ((2, 0), (1, 0.5)):
        s = line(n_prod=2, gap=3, proc=2, tr={"manh": list(man)}, machines=("R1", "R2"), plan=("P1",))
        out.append(T(f"tr/manhattan{man}", s, horizon=200, **k))
    s = line(n_prod=2, gap=3, proc=2, tr={"dist": [1, 0, "manhattan"]}, machines=("R1", "R2"), plan=("P1",))
    out.append(T("tr/dist-manhattan", s, horizon=200, **k))
    s = line(n_prod=2, gap=3, proc=2, tr={"dist": [1, 0, "euclidian"]}, machines=("R1", "R2"), plan=("P1",))
    out.append(T("tr/dist-euclidian", s, horizon=200, **k))
    # vehicles that stand where they pick up first, with a reaction time
    for at, re_, n_tr, tpol in itertools.product(("SRC", "R1"), (1, 0.5), (1, 2), ("FIFO", "SPT_transport")):
        s = line(n_prod=3, gap=3, proc=2, tr={"dist": [1, re_]}, machines=("R1", "R2"), plan=("P1", "P2"), n_tr=n_tr, tpol=tpol)
        s["res"]["R1"].update(procs=["P1"], caps=[1])
        s["res"]["R2"].update(procs=["P2"], caps=[1])
        s["res"]["T1"]["loc"] = list((s["sources"]["SRC"] if at == "SRC" else s["res"]["R1"])["loc"])
        out.append(T(f"tr/stands/{at}/{re_}/t{n_tr}/{tpol}", s, horizon=200, **k))
    return out + links(tier)


def link_line(links, nodes, machines=("R1",), locs=None, plan=("P1",), n_prod=2, gap=3, tr=None, n_tr=1, start=(0, 1), load=None, unload=None,
              extra=None, **kw):
    s = line(n_prod=n_prod, gap=gap, proc=2, tr=tr or {"dist": [1, 0]}, machines=machines, plan=plan, n_tr=n_tr, **kw)
    s["nodes"] = nodes
    s["procs"]["TP"] = {"kind": "L", "t": "tt", "links": links}
    for p, v in (("load", load), ("unload", unload)):
        if v is not None:
            s["tm"][p] = v
            s["procs"]["TP"][p] = p
    for m, l in (locs or {}).items():
        s["res"][m]["loc"] = list(l)
    for i in range(n_tr):
        s["res"][f"T{i + 1}"]["loc"] = list(start)
    s.update(extra or {})
    return s


def links(tier):
    out = []
    th = tier == "thorough"
    k = dict(bound=2 if th else 1, cap=400 if th else 60, horizon=200)
    # chain SRC - N1 - R1 - N2 - SNK
    nodes = {"N1": [3, 3], "N2": [7, 3]}
    chain = [["SRC", "N1"], ["N1", "R1"], ["R1", "N2"], ["N2", "SNK"]]
    for n_tr, ld in itertools.product((1, 2), (None, 1)):
        out.append(T(f"link/chain/t{n_tr}/load{ld}", link_line(chain, nodes, n_tr=n_tr, load=ld, unload=ld), **k))
    # a shortcut and a detour with the same number of hops / fewer hops but longer
    short = [["SRC", "N1"], ["N1", "R1"], ["SRC", "N2"], ["N2", "R1"], ["R1", "SNK"]]
    out.append(T("link/two-ways", link_line(short, {"N1": [2, 6], "N2": [2, 1]}), **k))
    out.append(T("link/two-ways-swapped", link_line(short, {"N2": [2, 6], "N1": [2, 1]}), **k))
    hop = [["SRC", "NF"], ["NF", "R1"], ["SRC", "N1"], ["N1", "N2"], ["N2", "R1"], ["R1", "SNK"]]
    out.append(T("link/hops-vs-length", link_line(hop, {"NF": [2, 9], "N1": [1.5, 0], "N2": [3, 0]}), **k))
    # machine pair, ring
    ring = [["SRC", "N1"], ["N1", "R1"], ["R1", "N2"], ["N2", "R2"], ["R2", "N3"], ["N3", "SNK"], ["N3", "N1"]]
    for heur in ("FIFO", "random"):
        s = link_line(ring, {"N1": [2, 2], "N2": [5, 2], "N3": [8, 2]}, machines=("R1", "R2"), plan=("P1", "P2"),
                      locs={"R1": (4, 0), "R2": (6, 0)}, heur=heur)
        out.append(T(f"link/ring/{heur}", s, **k))
    s = link_line(ring, {"N1": [2, 2], "N2": [5, 2], "N3": [8, 2]}, machines=("R1", "R2"), plan=("P1", "P2"),
                  locs={"R1": (4, 0), "R2": (6, 0)}, n_tr=2)
    s["res"]["R1"].update(in_loc=[3.5, 0.5], out_loc=[4.5, 0.5])
    out.append(T("link/ring/inout/t2", s, **k))
    # start away from the network
    out.append(T("link/start-away", link_line(chain, nodes, start=(1, 1)), **k))
    for locs, gap, heur in itertools.product((([-4, 0], [-5, 0]), ([-5, 0], [-4, 0]), ([1, 1], [6, 9]), ([8, 8], [8, 9])), (1, 9), ("shortest_queue", "random")):
        s = link_line(chain, nodes, n_tr=2, n_prod=3, gap=gap, heur=heur)
        s["res"]["T1"]["loc"], s["res"]["T2"]["loc"] = locs
        out.append(T(f"link/start-away/t2/{locs}/gap{gap}/{heur}", s, **k))
    for start, re_, n_tr in itertools.product(([0, 0], [3, 3], [5, 0], [0, 1]), (0, 0.5), (1, 2)):
        s = link_line(chain, nodes, start=start, n_tr=n_tr, tr={"dist": [1, re_]}, gap=6)
        out.append(T(f"link/start-on/{start}/{re_}/t{n_tr}", s, **k))
    # able machines that no vehicle can reach, per product
    for heur, who, n_tr in itertools.product(("FIFO", "random", "shortest_queue"), ("R1", "R2", "R3"), (1, 2)):
        s = link_line([["SRC", "N1"], ["N1", who], [who, "N2"], ["N2", "SNK"]], nodes, machines=("R1", "R2", "R3"), n_tr=n_tr, n_prod=3, heur=heur)
        out.append(T(f"link/unreachable/{who}/t{n_tr}/{heur}", s, **k))
    for heur in ("FIFO", "random", "shortest_queue"):
        s = link_line([["SRC", "N1"], ["N1", "R1"], ["N1", "R3"], ["R3", "N2"], ["R1", "N2"], ["N2", "SNK"]], nodes, machines=("R1", "R2", "R3"), n_tr=1, n_prod=3, heur=heur)
        out.append(T(f"link/unreachable/one-of-three/{heur}", s, **k))
    out += link_offers(k)
    # two ways to and from a machine whose exchange places differ from its position
    offs = [(0, 2), (0, -2), (1, 0), (-1.5, 1)]
    for (i, a), (j, b), (n1, n2) in itertools.product(enumerate(offs), enumerate(offs), (([6, 4], [6, -4]), ([6, 4], [6, -3.5]), ([6, 1], [5, -3]))):
        if i == j or not th and (i + j) % 2 == 0 and n1 != [6, 4]:
            continue
        net = [["SRC", "M1"], ["SRC", "M2"], ["M1", "R1"], ["M2", "R1"], ["R1", "N1"], ["R1", "N2"], ["N1", "SNK"], ["N2", "SNK"]]
        s = link_line(net, {"N1": n1, "N2": n2, "M1": [2, n1[1]], "M2": [2, n2[1]]}, n_prod=3)
        s["res"]["R1"].update(loc=[4, 0], in_loc=[4 + a[0], a[1]], out_loc=[4 + b[0], b[1]])
        out.append(T(f"link/places/{i}{j}/{n1}/{n2}", s, **k))
        if th or n1 == [6, 4]:
            net = net[:4] + [["R1", "N1"], ["R1", "N2"], ["N1", "R2"], ["N2", "R2"], ["R2", "SNK"]]
            s = link_line(net, {"N1": n1, "N2": n2, "M1": [2, n1[1]], "M2": [2, n2[1]]}, n_prod=3, machines=("R1", "R2"), plan=("P1", "P2"), n_tr=2)
            s["res"]["R1"].update(loc=[4, 0], in_loc=[4 + a[0], a[1]], out_loc=[4 + b[0], b[1]], procs=["P1"], caps=[1])
            s["res"]["R2"].update(loc=[8, 0], in_loc=[8 + b[0], b[1]], out_loc=[8 + a[0], a[1]], procs=["P2"], caps=[1])
            out.append(T(f"link/places/{i}{j}/{n1}/{n2}/2m", s, **k))
    return out


def link_offers(k):
    """Link processes that are asked for by capability or in a compound process, on one or several networks."""
    out = []
    nodes = {"N1": [3, 3], "N2": [7, 3]}
    chain = [["SRC", "N1"], ["N1", "R1"], ["R1", "N2"], ["N2", "SNK"]]
    alt = [["SRC", "N2"], ["N2", "R1"], ["R1", "SNK"]]
    for how, net, n_tr, heur in itertools.product(("cap", "comp"), ("one", "split", "alt", "decoy"), (1, 2), ("FIFO", "random")):
        if n_tr == 1 and (net == "split" or heur == "random"):
            continue
        s = link_line(chain, nodes, n_tr=n_tr, heur=heur)
        if net != "one":
            a, b = {"split": (chain[:2], chain[2:]), "alt": (chain, alt), "decoy": (chain, alt)}[net]
            s["procs"]["TP"]["links"] = a
            s["procs"]["TP2"] = {"kind": "L", "t": "tt", "links": b}
            if n_tr == 1:
                s["res"]["T1"].update(procs=["TP2", "TP"], caps=[1, 1])
            else:
                s["res"]["T2"]["procs"] = ["TP2"]
        names = ["TP"] if net in ("one", "decoy") else ["TP", "TP2"]
        if how == "cap":
            for x in names:
                s["procs"][x]["cap"] = "drive"
            if net == "decoy":
                s["procs"]["TP2"]["cap"] = "driver"
            s["procs"]["RQ"] = {"kind": "RC", "cap": "drive"}
            s["prods"]["A"]["tp"] = "RQ"
        else:
            s["procs"]["CT"] = {"kind": "CP", "ids": names}
            s["prods"]["A"]["tp"] = "CT"
        out.append(T(f"link/{how}/{net}/t{n_tr}/{heur}", s, **k))
    for heur in ("FIFO", "random"):
        s = line(n_prod=3, gap=2, n_tr=2, heur=heur)
        s["procs"]["TQ"] = {"kind": "T", "t": "tt"}
        s["procs"]["TX"] = {"kind": "T", "t": "tt"}
        s["res"]["T1"]["procs"] = ["TX"]
        s["res"]["T2"]["procs"] = ["TP"]
        s["res"]["T3"] = dict(s["res"]["T2"], procs=["TQ", "TX"], caps=[1, 1])
        s["procs"]["CT"] = {"kind": "CP", "ids": ["TP", "TQ"]}
        s["prods"]["A"]["tp"] = "CT"
        out.append(T(f"tr/compound/{heur}", s, **k))
        s = line(n_prod=3, gap=2, n_tr=2, heur=heur)
        s["procs"]["TP1"] = {"kind": "T", "t": "tt"}
        s["res"]["T1"]["procs"] = ["TP1"]
        out.append(T(f"tr/prefix/{heur}", s, **k))
    return out


def uneven(tier):
    """Machines of different speed with small input queues share one step."""
    out = []
    th = tier == "thorough"
    k = dict(bound=2 if th else 1, cap=400 if th else 40, horizon=400)
    for nm, times, iq, n_tr, heur, cap in itertools.product((2, 3), ((20, 2, 5), (2, 20, 5), (6, 3, 20)), (1, 2), (1, 3), ("FIFO", "random", "shortest_queue"), (1, 2)):
        if not th and (cap == 2 and (nm == 3 or heur != "FIFO") or nm == 3 and heur == "random"):
            continue
        ms = tuple(f"R{i + 1}" for i in range(nm))
        procs = {f"C{i + 1}": {"kind": "C", "t": f"tp_C{i + 1}", "cap": "work"} for i in range(nm)}
        procs["RQ"] = {"kind": "RC", "cap": "work"}
        s = line(n_prod=8, gap=1, tr=1, machines=ms, plan=("RQ",), procs=procs, proc={**{f"C{i + 1}": times[i] for i in range(nm)}, "RQ": 1}, inq=iq, n_tr=n_tr, heur=heur, cap=cap)
        for i, m in enumerate(ms):
            s["res"][m].update(procs=[f"C{i + 1}"], caps=[cap])
        out.append(T(f"uneven/{nm}m/{'-'.join(map(str, times))}/in{iq}/t{n_tr}/{heur}/cap{cap}", s, **k))
    # two sources, two steps, one of the first machines also does the second step
    for iq, heur, gap in itertools.product((1, 2), ("FIFO", "random"), (1, 2)):
        s = two_types(n=5, n_tr=2, heur=heur)
        s["tm"]["arr"] = {"sched": [1 + gap * i for i in range(5)], "abs": True}
        for q in s["queues"]:
            if q.startswith("R"):
                s["queues"][q] = iq if "in" in q else 0
        s["prods"]["A"]["procs"], s["prods"]["B"]["procs"] = ["P2"], ["P3"]
        s["tm"].update(tp_P2=2, tp_P3=15)
        s["res"]["R1"].update(procs=["P2", "P3"], caps=[1, 1])
        out.append(T(f"uneven/two-types/in{iq}/{heur}/gap{gap}", s, **k))
    return out


def auxiliaries(tier):
    out = []
    th = tier == "thorough"
    k = dict(bound=2 if th else 1, cap=800 if th else 80)
    for qty, nprod, n_tr, gap in itertools.product((1, 2), (2, 3), (1, 2), (1, 4)):
        if not th and n_tr == 2 and qty == 2:
            continue
        s = line(n_prod=nprod, gap=gap, proc=2, machines=("R1",), plan=("P1",), n_tr=n_tr)
        s["stores"]["ST"] = {"loc": [0, 4], "cap": 0}
        s["aux"]["AX"] = {"tp": "TP", "stores": "ST", "qty": [qty], "relt": ["TP"]}
        s["prods"]["A"]["aux"] = ["AX"]
        out.append(T(f"aux/q{qty}/n{nprod}/t{n_tr}/gap{gap}", s, horizon=120, **k))
    for qty in ((1, 1), (2, 0), (0, 2)):
        s = line(n_prod=3, gap=2, proc=2, machines=("R1", "R2"), plan=("P1", "P2"))
        s["stores"]["ST1"] = {"loc": [0, 4], "cap": 0}
        s["stores"]["ST2"] = {"loc": [8, 4], "cap": 0}
        s["aux"]["AX"] = {"tp": "TP", "stores": ["ST1", "ST2"], "qty": list(qty), "relt": ["TP"]}
        s["prods"]["A"]["aux"] = ["AX"]
        out.append(T(f"aux/two-stores/{qty}", s, horizon=120, **k))
    s = two_types()
    s["stores"]["ST"] = {"loc": [0, 4], "cap": 0}
    s["aux"]["AX"] = {"tp": "TP", "stores": "ST", "qty": [1], "relt": ["TP"]}
    s["aux"]["AY"] = {"tp": "TP", "stores": "ST", "qty": [1], "relt": ["TP"]}
    s["prods"]["A"]["aux"] = ["AX"]
    s["prods"]["B"]["aux"] = ["AY"]
    out.append(T("aux/two-types/own", s, horizon=160, **k))
    # of two types only one is relevant for the transports of the product
    for first, n, n_tr, qty in itertools.product((0, 1), (2, 3), (1, 2), (1, 2)):
        s_ = line(n_prod=n, gap=2, proc=2, machines=("R1",), plan=("P1",), n_tr=n_tr)
        s_["procs"]["TX"] = {"kind": "T", "t": "tt"}
        s_["res"]["T1"].update(procs=["TP", "TX"], caps=[1, 1])
        s_["stores"]["ST"] = {"loc": [0, 4], "cap": 0}
        for i in ((0, 1), (1, 0))[first]:
            x = ("AX", "AY")[i]
            s_["aux"][x] = {"tp": "TP", "stores": "ST", "qty": [(qty, 2)[i]], "relt": [("TP", "TX")[i]]}
        s_["prods"]["A"]["aux"] = [("AX", "AY"), ("AY", "AX")][first]
        s_["prods"]["A"]["aux"] = list(s_["prods"]["A"]["aux"])
        out.append(T(f"aux/relevant/{first}/n{n}/t{n_tr}/q{qty}", s_, horizon=120, **k))
    import copy
    s = copy.deepcopy(s)
    s["aux"].pop("AY")
    s["prods"]["B"]["aux"] = ["AX"]
    out.append(T("aux/two-types/shared", s, horizon=160, **k))
    s = copy.deepcopy(s)
    s["prods"]["B"]["aux"] = []
    out.append(T("aux/two-types/only-a", s, horizon=160, **k))
    return out + more_auxiliaries(tier, k)


def more_auxiliaries(tier, k):
    import copy
    out = []
    th = tier == "thorough"
    k = dict(k, horizon=300)
    # types whose names contain each other
    for need, other, heur in itertools.product(("FIX", "FIXTURE", "TURE"), (0, 1), ("FIFO", "random")):
        s = line(n_prod=4, gap=3, proc=2, tr=2, n_tr=2, heur=heur)
        for n, y in (("FIX", 4), ("FIXTURE", 8), ("TURE", 6)):
            s["stores"]["ST_" + n] = {"loc": [0, y], "cap": 0}
            s["aux"][n] = {"tp": "TP", "stores": "ST_" + n, "qty": [1 + other], "relt": ["TP"]}
        s["prods"]["A"]["aux"] = [need]
        out.append(T(f"aux/names/{need}/q{1 + other}/{heur}", s, **k))
    for (a, b), n in itertools.product((("FIX", "FIXTURE"), ("FIXTURE", "FIX"), ("FIX", "FIX_A"), ("A_FIX", "B")), (2, 3)):
        s = two_types(n=n, n_tr=2)
        for i, x in enumerate((a, b)):
            x = x if x != "B" else "B_FIX"
            s["stores"]["ST_" + x] = {"loc": [0, 4 + 3 * i], "cap": 0}
            s["aux"][x] = {"tp": "TP", "stores": "ST_" + x, "qty": [1 + i], "relt": ["TP"]}
            s["prods"]["AB"[i]]["aux"] = [x]
        out.append(T(f"aux/two-names/{a}+{b}/n{n}", s, **k))
    # distances, exchange places of the stores, own vehicle for the auxiliaries
    for metric, own, qty, gap in itertools.product(("manhattan", "euclidian"), (False, True), (1, 2), (3, 9)):
        s = line(n_prod=4, gap=gap, proc=2, tr={"dist": [2, 0.5, metric]}, n_tr=2)
        s["stores"]["ST"] = {"loc": [0, 4], "in_loc": [0, 6], "out_loc": [1, 8], "cap": 0}
        s["aux"]["AX"] = {"tp": "TP", "stores": "ST", "qty": [qty], "relt": ["TP"]}
        if own:
            s["procs"]["TA"] = {"kind": "T", "t": "tt"}
            s["aux"]["AX"]["tp"] = "TA"
            s["res"]["T2"]["procs"] = ["TA"]
        s["prods"]["A"]["aux"] = ["AX"]
        out.append(T(f"aux/places/{metric}/{'own' if own else 'shared'}/q{qty}/gap{gap}", s, **k))
    # random times
    for (dn, pt, tt), qty, n_tr in itertools.product((("exp", {"fn": ["exponential", 2, 0]}, 1), ("sample", [1, 3, 6], [1, 2]), ("normal", {"fn": ["normal", 3, 1]}, {"fn": ["normal", 1, 0.2]})), (1, 2), (1, 3)):
        s = line(n_prod=4, gap=2, machines=("R1", "R2"), plan=("P1", "P2"), proc=2, tr=tt, n_tr=n_tr, heur="random")
        s["tm"]["tp_P1"] = pt
        s["stores"]["ST"] = {"loc": [0, 4], "cap": 0}
        s["aux"]["AX"] = {"tp": "TP", "stores": "ST", "qty": [qty], "relt": ["TP"]}
        s["prods"]["A"]["aux"] = ["AX"]
        out.append(T(f"aux/{dn}/q{qty}/t{n_tr}", s, **k))
    # breakdowns of the machine or of the vehicle
    for who, ph, rep, qty in itertools.product(("R1", "T1"), (2.5, 4, 5.5, 7, 9), (0.5, 3), (1, 2)):
        s = line(n_prod=3, gap=2, proc=2, n_tr=1 + qty)
        s["tm"].update(bd={"sched": [ph, 6], "abs": False, "cyc": True}, rp=rep)
        s["states"]["B1"] = {"kind": "B", "t": "bd", "rep": "rp"}
        s["res"][who]["states"] = ["B1"]
        s["stores"]["ST"] = {"loc": [0, 4], "cap": 0}
        s["aux"]["AX"] = {"tp": "TP", "stores": "ST", "qty": [qty], "relt": ["TP"]}
        s["prods"]["A"]["aux"] = ["AX"]
        out.append(T(f"aux/bd/{who}/ph{ph}/rep{rep}/q{qty}", s, **k))
    # finite buffers, policies, two product types that share or compete
    for pol, tpol, iq, share, qty in itertools.product(("FIFO", "LIFO", "SPT"), ("FIFO", "SPT_transport"), (0, 1), (True, False), (1, 2)):
        if not th and (iq and pol != "FIFO" or tpol != "FIFO" and pol == "LIFO"):
            continue
        s = two_types(pol=pol, tpol=tpol, n=3, n_tr=2)
        s["prods"]["B"]["procs"] = ["P2", "P3"]
        s["prods"]["A"]["procs"] = ["P1", "P3"]
        s["res"]["R1"].update(procs=["P1", "P2"], caps=[1, 1])
        for q in s["queues"]:
            if q.startswith("R") and "in" in q:
                s["queues"][q] = iq
        s["stores"]["ST"] = {"loc": [0, 4], "cap": 0}
        s["stores"]["SU"] = {"loc": [3, 4], "cap": 0}
        s["aux"]["AX"] = {"tp": "TP", "stores": ["ST", "SU"], "qty": [qty, 1], "relt": ["TP"]}
        s["prods"]["A"]["aux"] = ["AX"]
        if not share:
            s["aux"]["AXB"] = {"tp": "TP", "stores": "SU", "qty": [qty], "relt": ["TP"]}
        s["prods"]["B"]["aux"] = ["AX" if share else "AXB"]
        out.append(T(f"aux/types/{pol}/{tpol}/in{iq}/{'share' if share else 'own'}/q{qty}", s, **k))
    return out


def batches(tier):
    out = []
    th = tier == "thorough"
    k = dict(bound=2 if th else 1, cap=500 if th else 60)
    for b, n, gap, cap in itertools.product((1, 2, 3), (2, 3, 4, 6), (1, 3), (None,)):
        s = line(n_prod=n, gap=gap, proc=3, machines=("R1",), plan=("P1",), cap=b)
        s["res"]["R1"].update(ctrl="BatchController", batch=b)
        out.append(T(f"batch/b{b}/n{n}/gap{gap}", s, batch=b, **k))
    for b in (2,):
        s = line(n_prod=4, gap=1, proc=3, machines=("R1", "R2"), plan=("P1", "P2"), cap=b)
        s["res"]["R1"].update(ctrl="BatchController", batch=b, procs=["P1"], caps=[b])
        s["res"]["R2"].update(procs=["P2"], caps=[b])
        out.append(T(f"batch/then-single/b{b}", s, batch=b, **k))
    return out + more_batches(tier, k)


def more_batches(tier, k):
    out = []
    th = tier == "thorough"
    kr = dict(k, bound=2 if th else 1, cap=800 if th else 60, horizon=200)
    # random process times
    for (dn, d), b, n, cap in itertools.product((("exp", {"fn": ["exponential", 3, 0]}), ("sample", [1, 3, 8]), ("norm", {"fn": ["normal", 3, 2]}), ("zero", [0, 2])),
                                                (2, 3), (6, 8), (1, 2)):
        s = line(n_prod=n, gap=1, machines=("R1",), plan=("P1",), cap=b * cap, n_tr=2)
        s["tm"]["tp_P1"] = d
        s["res"]["R1"].update(ctrl="BatchController", batch=b)
        if dn == "zero":
            s["zero"] = True  # activities without duration have no start event
        out.append(T(f"batch/{dn}/b{b}/n{n}/x{cap}", s, batch=b, **kr))
    # two product types with the same or with different processes, on one or two machines
    for b, pol, same, nm, heur in itertools.product((2, 3), ("FIFO", "LIFO", "SPT"), (True, False), (1, 2), ("FIFO", "random", "shortest_queue")):
        if not th and (nm == 1 and heur != "FIFO" or pol != "FIFO" and heur == "random"):
            continue
        s = two_types(pol=pol, n=4, n_tr=2, heur=heur)
        s["tm"]["arr"] = {"sched": [1, 2, 3, 4, 5, 6], "abs": True}
        s["tm"]["arrB"] = {"sched": [1, 2.5, 3, 4, 5, 6], "abs": True}
        s["prods"]["A"]["procs"] = ["P1"]
        s["prods"]["B"]["procs"] = ["P1"] if same else ["P2"]
        if nm == 1:
            s["res"] = {k_: v for k_, v in s["res"].items() if k_ != "R2"}
            s["queues"] = {k_: v for k_, v in s["queues"].items() if not k_.startswith("R2")}
        for r in ("R1", "R2")[:nm]:
            s["res"][r].update(procs=["P1", "P2"], caps=[b, b], cap=b, ctrl="BatchController", batch=b)
        out.append(T(f"batch/two-types/b{b}/{pol}/{'same' if same else 'diff'}/{nm}m/{heur}", s, batch=b, **kr))
    # more places in total than places for one process, no multiple of the batch
    for b, cap, pc, n in itertools.product((2, 3), (4, 5, 6), (3, 4, 5), (4, 6, 8)):
        if pc >= cap or pc < b or not th and n == 4:
            continue
        s = line(n_prod=n, gap=0.5, proc=3, tr=0.25, machines=("R1",), plan=("P1",), cap=cap, n_tr=2)
        s["res"]["R1"].update(ctrl="BatchController", batch=b, caps=[pc])
        out.append(T(f"batch/places/b{b}/cap{cap}/{pc}/n{n}", s, batch=b, **kr))
    # machines with room for more than one batch
    for b, cap, (ca, cb), n in itertools.product((2, 3), (3, 4, 5), ((0, 0), (2, 0), (3, 2)), (4, 6)):
        ca, cb = ca or cap, cb or cap
        if cap < b or min(ca, cb) < b or max(ca, cb) > cap:
            continue
        s = two_types(n=n, n_tr=3)
        s["tm"]["arr"] = {"sched": [1 + 0.5 * i for i in range(n)], "abs": True}
        s["tm"]["arrB"] = {"sched": [1.25 + 0.5 * i for i in range(n)], "abs": True}
        s["tm"]["tp_P1"], s["tm"]["tp_P2"] = 5, 4
        s["prods"]["A"]["procs"], s["prods"]["B"]["procs"] = ["P1"], ["P2"]
        s["res"] = {k_: v for k_, v in s["res"].items() if k_ != "R2"}
        s["queues"] = {k_: v for k_, v in s["queues"].items() if not k_.startswith("R2")}
        s["res"]["R1"].update(procs=["P1", "P2"], caps=[ca, cb], cap=cap, ctrl="BatchController", batch=b)
        out.append(T(f"batch/room/b{b}/cap{cap}/{ca}-{cb}/n{n}", s, batch=b, **kr))
    # finite buffers, two steps on batch machines, breakdowns
    for b, (iq, oq), n_tr in itertools.product((2, 3), ((0, 0), (3, 3), (6, 3)), (1, 2)):
        s = line(n_prod=6, gap=1, proc={"P1": 3, "P2": 2}, machines=("R1", "R2"), plan=("P1", "P2"), cap=b, inq=iq, outq=oq, n_tr=n_tr)
        for r, p in (("R1", "P1"), ("R2", "P2")):
            s["res"][r].update(procs=[p], caps=[b], ctrl="BatchController", batch=b)
        out.append(T(f"batch/two-steps/b{b}/in{iq}out{oq}/t{n_tr}", s, batch=b, **kr))
    for b, kind, ph, rep in itertools.product((2, 3), ("B", "PB"), (2.5, 4, 5, 6.5), (0.5, 3)):
        s = line(n_prod=6, gap=1, proc=3, machines=("R1",), plan=("P1",), cap=b)
        s["res"]["R1"].update(ctrl="BatchController", batch=b, states=["B1"])
        s["tm"].update(bd={"sched": [ph, 5], "abs": False, "cyc": True}, rp=rep)
        s["states"]["B1"] = {"kind": kind, "t": "bd", "rep": "rp"}
        if kind == "PB":
            s["states"]["B1"]["proc"] = "P1"
        out.append(T(f"batch/{kind}/b{b}/ph{ph}/rep{rep}", s, batch=b, **kr))
    # failures and rework on a batch machine
    for b, blocking in itertools.product((2,), (True, False)):
        procs = {"P1": {"t": "tp_P1", "fail": 0.5}, "RW": {"kind": "RW", "t": "tp_RW", "of": ["P1"], "blocking": blocking}}
        s = line(n_prod=4, gap=1, machines=("R1", "R2"), plan=("P1",), procs=procs, proc={"P1": 3, "RW": 1.5}, cap=b)
        s["res"]["R1"].update(procs=["P1"], caps=[b], ctrl="BatchController", batch=b)
        s["res"]["R2"].update(procs=["RW"], caps=[1], cap=1)
        out.append(T(f"batch/rework/b{b}/{'b' if blocking else 'nb'}", s, batch=b, **dict(kr, bound=2)))
    # setups on a batch machine
    for b, gap in itertools.product((2, 3), (1, 3)):
        s = two_types(n=4, n_tr=2)
        s["tm"]["arr"] = {"sched": [1 + gap * i for i in range(2 * b)], "abs": True}
        s["tm"]["arrB"] = {"sched": [1.5 + gap * i for i in range(2 * b)], "abs": True}
        s["prods"]["A"]["procs"], s["prods"]["B"]["procs"] = ["P1"], ["P2"]
        s["res"] = {k_: v for k_, v in s["res"].items() if k_ != "R2"}
        s["queues"] = {k_: v for k_, v in s["queues"].items() if not k_.startswith("R2")}
        s["tm"].update(s12=2, s21=1)
        s["states"].update(S12={"kind": "S", "t": "s12", "from": "P1", "to": "P2"}, S21={"kind": "S", "t": "s21", "from": "P2", "to": "P1"})
        s["res"]["R1"].update(procs=["P1", "P2"], caps=[b, b], cap=b, ctrl="BatchController", batch=b, states=["S12", "S21"])
        out.append(T(f"batch/setup/b{b}/gap{gap}", s, batch=b, **kr))
    return out


def stores(tier):
    """Machines whose output goes (also) to a store."""
    out = []
    th = tier == "thorough"
    k = dict(bound=2 if th else 1, cap=400 if th else 60, horizon=120)
    for cap, n in itertools.product((0, 1, 2), (2, 3)):
        s = line(n_prod=n, gap=2, proc=2, machines=("R1", "R2"), plan=("P1", "P2"))
        s["res"]["R1"].update(procs=["P1"], caps=[1])
        s["res"]["R2"].update(procs=["P2"], caps=[1])
        s["stores"]["ST"] = {"loc": [7, 7], "cap": cap}
        s["res"]["R1"]["out"] = ["R1_out", "ST"]
        out.append(T(f"store/out/cap{cap}/n{n}", s, **k))
    # two machines that feed the same store(s) at coinciding times, a slow machine behind
    for cap, heur, two, iq, dt in itertools.product((0, 1, 2), ("random", "FIFO"), (False, True), (0, 1), (0, 0.5)):
        if not th and (dt and heur == "FIFO" or two and cap == 0):
            continue
        procs = {"P1": {"t": "tp_P1"}, "P2": {"t": "tp_P2"}, "P3": {"t": "tp_P3"}}
        s = line(n_prod=2, gap=2, machines=("R1", "R2", "R3"), plan=("P1", "P2"), procs=procs, proc={"P1": 2, "P2": 5, "P3": 2}, n_tr=4, heur=heur)
        for r, p in (("R1", "P1"), ("R2", "P3"), ("R3", "P2")):
            s["res"][r].update(procs=[p], caps=[1])
        s["tm"]["arrB"] = {"sched": [1 + dt, 3 + dt], "abs": True}
        s["prods"]["B"] = {"procs": ["P3", "P2"], "tp": "TP"}
        s["sources"]["SRCB"] = {"loc": [0, 5], "type": "B", "t": "arrB", "heur": heur, "out": "src_b"}
        s["sinks"]["SNKB"] = {"loc": [10, 5], "type": "B", "in": "snk_b"}
        s["queues"].update(src_b=0, snk_b=0, R3_in=iq)
        s["stores"]["ST"] = {"loc": [7, 7], "cap": cap, "in_loc": [6, 7], "out_loc": [8, 7]}
        s["res"]["R1"]["out"] = ["R1_out", "ST"]
        s["res"]["R2"]["out"] = ["R2_out", "ST"]
        if two:
            s["stores"]["ST2"] = {"loc": [9, 7], "cap": 1}
            s["res"]["R1"]["out"] = ["R1_out", "ST", "ST2"]
        out.append(T(f"store/shared/cap{cap}/{heur}/{'two' if two else 'one'}/in{iq}/dt{dt}", s, **dict(k, bound=3 if th else 2, cap=1500 if th else 120)))
    # stores that are also inputs of machines; products of another type wait in them
    for heur, who, iq, n, gap in itertools.product(("shortest_queue", "FIFO", "random"), (("R2",), ("R4",), ("R2", "R3"), ("R3",)), (1, 2), (4, 6), (1, 2)):
        if not th and (heur != "shortest_queue" and (n == 4 or gap == 2)):
            continue
        procs = {p: {"t": "tp_" + p} for p in ("P1", "P2", "P3")}
        s = line(n_prod=n, gap=gap, machines=("R1", "R2", "R3", "R4"), plan=("P1", "P3"), procs=procs, proc={"P1": 0.5, "P2": 15, "P3": 5}, n_tr=4, heur=heur, tr=0.5)
        for r, p in (("R1", "P1"), ("R2", "P3"), ("R3", "P2"), ("R4", "P3")):
            s["res"][r].update(procs=[p], caps=[1])
        s["tm"]["arrB"] = {"sched": [0.5 + 0.7 * i for i in range(5)], "abs": True}
        s["prods"]["B"] = {"procs": ["P1", "P2"], "tp": "TP"}
        s["sources"]["SRCB"] = {"loc": [0, 5], "type": "B", "t": "arrB", "heur": heur, "out": "src_b"}
        s["sinks"]["SNKB"] = {"loc": [10, 5], "type": "B", "in": "snk_b"}
        s["queues"].update(src_b=0, snk_b=0, R3_in=iq)
        s["stores"]["ST"] = {"loc": [7, 7], "cap": 0}
        s["res"]["R1"]["out"] = ["R1_out", "ST"]
        for r in who:
            s["res"][r]["in"] = [r + "_in", "ST"]
        out.append(T(f"store/waiting/{heur}/{'-'.join(who)}/in{iq}/n{n}/gap{gap}", s, **k))
    # stores and machines with separate exchange places, times that depend on the distance
    for metric, reach, n_tr in itertools.product(("manhattan", "euclidian"), ("out", "in", "both"), (1, 2)):
        s = line(n_prod=4, gap=2, tr={"dist": [2, 0.5, metric]}, proc={"P1": 2, "P2": 6}, machines=("R1", "R2"), plan=("P1", "P2"), n_tr=n_tr)
        s["res"]["R1"].update(procs=["P1"], caps=[1], in_loc=[4.5, 0.5], out_loc=[5.5, -1])
        s["res"]["R2"].update(procs=["P2"], caps=[1])
        s["stores"]["ST"] = {"loc": [7, 7], "cap": 0}
        if reach != "out":
            s["stores"]["ST"]["in_loc"] = [6, 5]
        if reach != "in":
            s["stores"]["ST"]["out_loc"] = [8, 4]
        s["res"]["R1"]["out"] = ["R1_out", "ST"]
        out.append(T(f"store/places/{metric}/{reach}/t{n_tr}", s, **dict(k, bound=3 if th else 2)))
    return out


def charging(tier):
    out = []
    th = tier == "thorough"
    k = dict(bound=1, cap=100 if th else 30, horizon=120)
    for bat, ch in itertools.product((4, 7, 12), (1, 3)):
        s = line(n_prod=4, gap=2, proc=2, machines=("R1",), plan=("P1",))
        s["tm"].update(bat=bat, chg=ch)
        s["states"]["CH"] = {"kind": "CH", "t": "chg", "bat": "bat"}
        s["res"]["T1"]["states"] = ["CH"]
        out.append(T(f"charge/transport/{bat}/{ch}", s, **k))
        s = line(n_prod=4, gap=2, proc=2, machines=("R1",), plan=("P1",))
        s["tm"].update(bat=bat, chg=ch)
        s["states"]["CH"] = {"kind": "CH", "t": "chg", "bat": "bat"}
        s["res"]["R1"]["states"] = ["CH"]
        out.append(T(f"charge/machine/{bat}/{ch}", s, **k))
    return out


def dispatching(tier):
    """Backlogs in front of one machine / one vehicle under every control policy."""
    out = []
    th = tier == "thorough"
    k = dict(bound=1, cap=400 if th else 60, horizon=500)
    mixes = ((1, 1), (3, 2), (2, 4)) + (((5, 1), (1, 5)) if th else ())
    for pol, (na, nb), cap, shape in itertools.product(("FIFO", "LIFO", "SPT"), mixes, (1, 2), ("dense", "late")):
        s = two_types(pol=pol, n=1, tr=0.25)
        s["tm"].update(tp_P1=7, tp_P2=5, tp_P3=6)
        s["tm"]["arr"] = {"sched": [1 + 1.1 * i for i in range(na)] + ([30 + 2 * na] if shape == "late" else []), "abs": True}
        s["tm"]["arrB"] = {"sched": [1.5 + 1.3 * i for i in range(nb)] + ([21] if shape == "late" else []), "abs": True}
        s["res"] = {k_: v for k_, v in s["res"].items() if k_ != "R2"}
        s["queues"] = {k_: v for k_, v in s["queues"].items() if not k_.startswith("R2")}
        s["res"]["R1"].update(procs=["P1", "P2", "P3"], caps=[cap] * 3, cap=cap)
        s["prods"]["A"]["procs"], s["prods"]["B"]["procs"] = ["P1", "P2"], ["P3"]
        out.append(T(f"disp/machine/{pol}/{na}+{nb}/cap{cap}/{shape}", s, **k))
    near = ("Nearest_origin_and_longest_target_queues_transport", "Nearest_origin_and_shortest_target_input_queues_transport")
    for tpol, (na, nb), speed in itertools.product(("FIFO", "SPT_transport") + near, ((2, 2), (3, 3)), (0.5, 1)):
        s = two_types(tpol=tpol, n=1, tr={"dist": [speed, 0]})
        s["tm"].update(tp_P1=2, tp_P2=1.5, tp_P3=3)
        s["tm"]["arr"] = {"sched": [1 + 1.1 * i for i in range(na)], "abs": True}
        s["tm"]["arrB"] = {"sched": [1.5 + 1.3 * i for i in range(nb)], "abs": True}
        s["res"]["R1"].update(in_loc=[4, 0], out_loc=[6, 1], procs=["P1"], caps=[1])
        s["res"]["R2"].update(procs=["P3"], caps=[1])
        s["prods"]["A"]["procs"], s["prods"]["B"]["procs"] = ["P1", "P3"], ["P3", "P1"]
        out.append(T(f"disp/vehicle/{tpol}/{na}+{nb}/v{speed}", s, **k))
    return out


def linear(tier):
    """Serial lines with dedicated machines and finite buffers: blocking, but no deadlock."""
    out = []
    th = tier == "thorough"
    k = dict(bound=2 if th else 1, cap=1200 if th else 60, horizon=150)
    for n_m, (iq, oq), cap, gap, pt in itertools.product((2, 3), ((0, 0), (1, 1), (2, 1), (1, 2), (1, 0), (0, 1)), (1, 2), (1, 3),
                                                         ("up", "down")):
        if n_m == 3 and not th and (cap == 2 or gap == 3):
            continue
        ms = tuple(f"R{i + 1}" for i in range(n_m))
        ps = tuple(f"P{i + 1}" for i in range(n_m))
        ts = [2 + 1.5 * i for i in range(n_m)]
        if pt == "down":
            ts.reverse()
        s = line(n_prod=4, gap=gap, proc=dict(zip(ps, ts)), machines=ms, plan=ps, cap=cap, inq=iq, outq=oq, n_tr=1 if gap == 1 else 2)
        for m, p in zip(ms, ps):
            s["res"][m].update(procs=[p], caps=[cap])
        out.append(T(f"lin/{n_m}m/in{iq}out{oq}/cap{cap}/gap{gap}/{pt}", s, **k))
    # larger buffers that fill up completely
    for (iq, oq), cap, heur, n_r in itertools.product(((3, 0), (3, 3), (4, 1), (5, 0)), (1, 2), ("FIFO", "shortest_queue"), (1, 2)):
        if not th and (heur != "FIFO") != (n_r == 2):
            continue
        s = line(n_prod=iq + cap + 3, gap=0.5, proc=12, tr=0.25, machines=("R1", "R2")[:n_r], plan=("P1",), cap=cap, inq=iq, outq=oq, n_tr=2, heur=heur)
        out.append(T(f"lin/full/in{iq}out{oq}/cap{cap}/{heur}/{n_r}m", s, **dict(k, horizon=300)))
    return out


def simultaneous(tier):
    """Everything happens at the same instants: two sources, two vehicles, shared machines, all definition orders."""
    out = []
    th = tier == "thorough"
    k = dict(bound=2 if th else 1, cap=600 if th else 40, horizon=150)
    orders = list(itertools.permutations(("R1", "R2", "T1", "T2")))
    if not th:
        orders = orders[::5]
    for cap, (iq, oq), order, same_plan, pol in itertools.product((1, 2, 3), ((0, 0), (2, 2)), orders, (True, False), ("FIFO", "SPT")):
        if not th and pol == "SPT" and (cap == 3 or iq):
            continue
        s = two_types(pol=pol, n=2, n_tr=2)
        s["tm"]["arr"] = {"sched": [1, 3, 4], "abs": True}
        s["tm"]["arrB"] = {"sched": [1, 3, 5], "abs": True}
        for p in ("P1", "P2", "P3"):
            s["tm"]["tp_" + p] = 2
        for m in ("R1", "R2"):
            s["res"][m].update(procs=["P1", "P2", "P3"], caps=[cap] * 3, cap=cap)
            s["queues"][m + "_in"], s["queues"][m + "_out"] = iq, oq
        if iq:  # dedicated machines, so that finite buffers cannot deadlock
            s["res"]["R1"].update(procs=["P1", "P3"], caps=[cap] * 2)
            s["res"]["R2"].update(procs=["P2"], caps=[cap])
        s["prods"]["A"]["procs"] = ["P1", "P2"]
        s["prods"]["B"]["procs"] = ["P1", "P2"] if same_plan else ["P3", "P2"]
        s["res"] = {r: s["res"][r] for r in order}
        out.append(T(f"sync/cap{cap}/b{iq}{oq}/{''.join(order)}/{'same' if same_plan else 'diff'}/{pol}", s, **k))
    return out


def stochastic(tier):
    """Systems in which many things are random: times, routing, failures, plans, breakdowns."""
    out = []
    k = dict(bound=2 if tier == "thorough" else 1, cap=2500 if tier == "thorough" else 150, horizon=60)
    dists = {"sample": [1, 2, 4], "exp": {"fn": ["exponential", 3, 0]}, "norm": {"fn": ["normal", 3, 1.5]},
             "logn": {"fn": ["lognormal", 3, 1]}, "seq": {"seq": [2, 3, 5]}}
    for (dn, d), arr in itertools.product(dists.items(), ("sched", "exp", "sample")):
        s = two_types(heur="random", n=3)
        for p in ("P1", "P2", "P3"):
            s["tm"]["tp_" + p] = d
        s["procs"]["P1"]["fail"] = 0.3
        s["tm"]["tr"] = [2, 3]
        s["procs"]["RW"] = {"kind": "RW", "t": "tr", "of": ["P1"], "blocking": arr != "exp"}
        for r in ("R1", "R2"):
            s["res"][r].update(procs=["P1", "P2", "P3", "RW"], caps=[2, 2, 2, 2], cap=2)
        s["prods"]["A"]["procs"] = {"P1": ["P3"], "P2": ["P3"], "P3": []}
        s["tm"].update(bt=[9, 14], rp={"fn": ["exponential", 2, 0]})
        s["states"]["BD"] = {"kind": "B", "t": "bt", "rep": "rp"}
        s["res"]["R1"]["states"] = ["BD"]
        if arr != "sched":
            s["tm"]["arr"] = {"fn": ["exponential", 6, 0]} if arr == "exp" else [5, 7]
            s["tm"]["arrB"] = {"fn": ["normal", 6, 2]} if arr == "exp" else [6, 8]
        out.append(T(f"rand/{dn}/{arr}", s, **k))
    return out


def places(tier):
    """Machines with several places; arrivals together or shortly after one another."""
    out = []
    th = tier != "quick"
    for cap, n, dt, heur, t in itertools.product((2, 3, 4), (2, 3, 4, 6), (0, 0.25), ("random", "FIFO"), (5, 0.5)):
        if n < cap or dt == 0 and ((cap, n) not in ((2, 2), (3, 3)) or heur != "random" or t != 5):
            continue
        s = line(n_prod=1, gap=0, proc=t, machines=("R1",), plan=("P1",), cap=cap, n_tr=n, heur=heur)
        for i in range(1, n):
            s["queues"][f"src{i}"] = 0
            s["tm"][f"arr{i}"] = {"sched": [1 + dt * i], "abs": True}
            s["sources"][f"SRC{i}"] = dict(s["sources"]["SRC"], loc=[0, 3 + i], out=f"src{i}", t=f"arr{i}")
        out.append(T(f"places/cap{cap}/n{n}/dt{dt}/{heur}/t{t}", s, bound=3 if th else 2, cap=1000 if th else 60, horizon=40))
    return out


def ports(tier):
    """Machines with two queues on a side."""
    out = []
    th = tier == "thorough"
    bases = {"line": lambda: line(n_prod=4, gap=1, proc=2, tr=1, machines=("R1", "R2"), plan=("P1", "P2")),
             "cap2": lambda: line(n_prod=4, gap=1, proc=3, tr=0.5, machines=("R1",), plan=("P1",), cap=2, n_tr=2),
             "two": lambda: two_types(n=3)}
    for (n, b), sides, (c1, c2) in itertools.product(bases.items(), (("in",), ("out",), ("in", "out")), ((0, 0), (2, 2), (2, 0), (1, 1)) if th else ((0, 0), (2, 2), (1, 1))):
        if n == "two" and c1 == 1:
            continue  # two machines that wait for one another
        s = b()
        for r in [r for r, v in s["res"].items() if not v.get("transport")]:
            for side in sides:
                s["res"][r][side] = [f"{r}_{side}", f"{r}_{side}2"]
                s["queues"].update({f"{r}_{side}": c1, f"{r}_{side}2": c2})
        out.append(T(f"ports/{n}/{'+'.join(sides)}/{c1}+{c2}", s, bound=3 if th else 2, cap=1000 if th else 60, horizon=60))
    return out


def sinks(tier):
    """Several sinks and sources per product type, types whose names begin alike."""
    out = []
    th = tier == "thorough"
    for types, dup, heur in itertools.product((("A", "AB"), ("AB", "A")), ("sinks", "sources", "both"), ("FIFO", "random") if th else ("FIFO",)):
        s = two_types(heur=heur)
        a, b = types
        for c, t in (("A", a), ("B", b)):
            s["prods"][c + "_"] = s["prods"].pop(c)
        for c, t in (("A", a), ("B", b)):
            s["prods"][t] = s["prods"].pop(c + "_")
            for g in ("sources", "sinks"):
                for v in s[g].values():
                    if v["type"] == c:
                        v["_t"] = t
        for g in ("sources", "sinks"):
            for v in s[g].values():
                v["type"] = v.pop("_t")
        if dup in ("sinks", "both"):
            for i, t in enumerate((a, b, a)):
                s["sinks"][f"END{i}"] = {"loc": [12, 3 * i], "type": t, "in": f"end_{i}"}
                s["queues"][f"end_{i}"] = 0
        if dup in ("sources", "both"):
            for i, t in enumerate((b, a)):
                s["tm"][f"arr{i}"] = {"sched": [2 + i, 6 + i], "abs": True}
                s["sources"][f"IN{i}"] = {"loc": [-2, 3 * i], "type": t, "t": f"arr{i}", "heur": heur, "out": f"in_{i}"}
                s["queues"][f"in_{i}"] = 0
        out.append(T(f"sinks/{a}-{b}/{dup}/{heur}", s, bound=2, cap=600 if th else 60))
    return out


FAMILIES = dict(ports=ports, places=places, sinks=sinks, flow=flow, sync=simultaneous, lin=linear, disp=dispatching, plan=choice_plans, offer=offers, bd=breakdowns, setup=setups, rework=rework, tr=transports,
                aux=auxiliaries, uneven=uneven, batch=batches, store=stores, charge=charging, rand=stochastic)


def pick(tier, *names, every=1, only=None):
    out = []
    for n in names:
        ts = FAMILIES[n](tier)
        out += [t for i, t in enumerate(ts) if i % every == 0]
    return out
