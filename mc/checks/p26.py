"""P26: the control environments carry out the decisions of the agent, and nothing else changes.

Explored: every sequence of decisions of an agent (each index of the menu and an index outside
of it) with a bounded number of deviations from the first answer, on the real environments;
afterwards the agent is replaced by a passive policy and the episode runs to its horizon.
Every decision point and the whole history are checked."""
import copy
import functools
import itertools
import time

from .. import build, monitors, simrun, suites
from ..build import line
from ..explore import explore, Divergence
from ..harness import Result
from ..trace import by, matches

LEVEL = "model_checking"
RULE = ("All answers of an agent with at most the stated number of deviations from the first entry of its menu (every index of a request or resource, and one outside), for every system and controlled "
        "resource; random answers of the environment to invalid actions are enumerated too. At every decision the menu, the observation and the time are compared with the state of the system, "
        "and after the episode the history must realise the decisions in their order and satisfy the rules of the simulation. Non-trivial: the agent deviates.")
ASSUMPTIONS = ["arrivals never end (an environment without any further decision cannot return)", "time models are deterministic"]

MON = [monitors.no_error, monitors.conservation, monitors.process_plan, monitors.rework, monitors.capacity, monitors.buffers, monitors.breakdowns, monitors.setups, monitors.log_wellformed,
       monitors.transport, monitors.work_conserving]


def endless(sp, gap=3):
    sp = copy.deepcopy(sp)
    for s in sp["sources"].values():
        s["t"] = "arr_" + s.get("type", "")
        sp["tm"]["arr_" + s.get("type", "")] = gap
        gap += 2
    used = {v for e in list(sp["procs"].values()) + list(sp["states"].values()) for k, v in e.items() if isinstance(v, str)} | {s["t"] for s in sp["sources"].values()}
    for t in [t for t in sp["tm"] if t not in used]:
        del sp["tm"][t]
    return sp


UNUSED = {("two carriers", "T2"), ("line2", "R2"), ("cap3", "T2"), ("breakdowns", "R2")}  # the routing by order of declaration never needs them


def systems():
    two = functools.partial(suites.two_types, n=2)
    out = {
        "line": line(n_prod=2, gap=3, proc=4, tr=1, machines=("R1",), plan=("P1",)),
        "line2": line(n_prod=2, gap=3, proc=4, tr=1, machines=("R1", "R2"), plan=("P1", "P2")),
        "cap2": line(n_prod=2, gap=3, proc=4, tr=1, machines=("R1",), plan=("P1",), cap=2),
        "buffers": line(n_prod=2, gap=3, proc=4, tr=1, machines=("R1", "R2"), plan=("P1",), inq=1, outq=1),
        "two": two(),
        "two carriers": two(n_tr=2),
    }
    tight = two(inq=2, outq=2)
    out["two, buffers"] = tight
    s = two()
    s["tm"]["setup"] = 2
    for a, b in itertools.permutations(("P1", "P2"), 2):
        s["states"][f"S{a}{b}"] = {"kind": "S", "t": "setup", "from": a, "to": b}
    s["res"]["R1"]["states"] = ["SP1P2", "SP2P1"]
    out["setups"] = s
    s = two()
    for r in [r for r, v in s["res"].items() if not v.get("transport")]:
        for side in ("in", "out"):
            s["res"][r][side] = [f"{r}_{side}", f"{r}_{side}2"]
            s["queues"][f"{r}_{side}2"] = 0
            s["queues"][f"{r}_{side}"] = 2
    out["two queues"] = s
    out["cap3"] = line(n_prod=2, gap=1, proc=3, tr=0.5, machines=("R1",), plan=("P1",), cap=3, n_tr=2)
    s = line(n_prod=2, gap=3, proc=4, tr=1, machines=("R1", "R2"), plan=("P1",))
    s["tm"]["bd"], s["tm"]["rp"] = {"sched": [3.5, 4], "abs": False, "cyc": True}, 5
    for i in ("R1", "T1"):
        s["states"]["B" + i] = {"kind": "B", "t": "bd", "rep": "rp"}
        s["res"][i]["states"] = ["B" + i]
    out["breakdowns"] = s
    return out


def tasks(tier):
    out = []
    th = tier == "thorough"
    for n, sp in systems().items():
        sp = endless(sp)
        for r, v in sp["res"].items():
            if (n, r) in UNUSED:
                continue
            out.append(dict(name=f"sequence/{n}/{r}", kind="sequence", spec=sp, res=r, bound=3 if th else 2, cap=6000 if th else 350, horizon=34))
        out.append(dict(name=f"route/{n}", kind="route", spec=sp, bound=3 if th else 2, cap=6000 if th else 350, horizon=34))
    return out


def ids(ps):
    return [p.ID for p in ps]


class Watch:
    """what the environment tells the agent"""

    def __init__(self):
        self.problems = []
        self.decisions = []
        self.calls = []

    def bad(self, sig, msg):
        self.problems.append((sig, msg))


def make_env(kind, adapter, rid, w):
    from prodsys.control import routing_control_env as R, sequencing_control_env as S
    if kind == "sequence":
        class Env(S.AbstractSequencingControlEnv):
            def get_observation(self):
                return watch_resource(self.resource, self.observer, self.runner, w)

            def get_info(self):
                return {"now": self.runner.env.now}

            def get_reward(self, processed_request, invalid_action=False):
                w.calls.append((processed_request, invalid_action))
                return len(w.calls)

            def get_termination_condition(self):
                return self.runner.env.now >= 25
        return Env(adapter, rid)

    class Env(R.AbstractRoutingControlEnv):
        def get_observation(self):
            if [o.resource.data.ID for o in self.observers] != [r.data.ID for r in self.runner.resource_factory.resources]:
                w.bad("observe/resources", "not one observer per resource")
            for o in self.observers:
                watch_resource(o.resource, o, self.runner, w)
            return [o.observe_resource_available().available for o in self.observers]

        def get_info(self):
            return {"now": self.runner.env.now}

        def get_reward(self, invalid_action=False):
            w.calls.append((None, invalid_action))
            return len(w.calls)

        def get_termination_condition(self):
            return self.runner.env.now >= 25
    return Env(adapter)


def watch_resource(res, obs, r, w):
    """observation of a resource, compared with its state"""
    if obs.observe_resource_available().available != res.active.triggered:
        w.bad("observe/available", f"t={r.env.now}")
    if not hasattr(res, "input_queues"):
        return None
    running = sorted(s.state_info._product_ID for s in res.production_states if s.process is not None and s.process.is_alive)
    seen = obs.observe_processes()
    live = sorted(o.product for o in seen if o.product in running)
    if live != running:
        w.bad("observe/processes", f"t={r.env.now}: running {running}, observed {[o.product for o in seen]}")
    for side in ("input", "output"):
        have = sorted(x.ID for q in getattr(res, side + "_queues") for x in q.items)
        try:
            got = getattr(obs, f"observe_{side}_queue")()
        except Exception as e:
            w.bad(f"observe/{side}", f"t={r.env.now}: {type(e).__name__}: {str(e)[:200]}")
            continue
        if sorted(o.product for o in got) != have:
            w.bad(f"observe/{side}", f"t={r.env.now}: queued {have}, observed {[o.product for o in got]}")
        for o in got:
            p = r.product_factory.get_product(o.product)
            nxt = p.next_prodution_process.process_data.ID if p.next_prodution_process else None
            if (o.process or None) != nxt:
                w.bad(f"observe/{side}", f"{o.product} is observed for {o.process}, it needs {nxt}")
            if o.waiting_since > r.env.now:
                w.bad(f"observe/{side}", f"{o.product} waits since {o.waiting_since} at {r.env.now}")
    return (len(seen),)


def drive(task, ch, tr, attach, w, again=False):
    import numpy as np
    import simpy.core
    env = make_env(task["kind"], tr.adapter, task.get("res"), w)
    real = env.runner.initialize_simulation
    done = []

    def init():
        real()
        if len(done) == int(again):
            attach(env.runner)
        done.append(1)
    env.runner.initialize_simulation = init
    if again:  # a first, shorter episode must leave no trace
        env.reset(seed=1)
        for _ in range(3):
            env.step(np.eye(4)[1])
        w.problems.clear(), w.decisions.clear(), w.calls.clear()
    env.reset(seed=1)
    last = env.runner.env.now
    n = 0
    while env.runner.env.now < 25 and n < 14:
        n += 1
        now = env.runner.env.now
        if now < last:
            w.bad("time", f"a decision at {now} after one at {last}")
        last = now
        if task["kind"] == "sequence":
            menu = list(env.resource_controller.requests)
            if not menu:
                w.bad("menu", f"t={now}: the agent is asked without requests")
                break
            for q in menu:
                if q.resource is not env.resource:
                    w.bad("menu", f"t={now}: a request of another resource")
            k = min(len(menu), 3)
            a = ch.choose(k + 1, "agent")
            if a == k:
                act, valid = len(menu) + 1, False
            else:
                act, valid = (a if a < 2 else len(menu) - 1), True
            want = menu[act] if valid else None
        else:
            menu = list(env.possible_requests)
            allr = [r.data.ID for r in env.runner.resource_factory.resources]
            offered = [q.resource.data.ID for q in menu]
            if not menu:
                w.bad("menu", f"t={now}: the agent is asked without possibilities")
                break
            # first entry: the first possibility; then the others; then the resources outside of the menu
            options = list(dict.fromkeys(offered)) + [r for r in allr if r not in offered][:1]
            pick = options[ch.choose(len(options), "agent")]
            act, valid = allr.index(pick), pick in offered
            want = pick
            check_menu(task["spec"], env, menu, w)
        size = max(act + 1, 3)
        calls = len(w.calls)
        nw = len(env.resource_controller.requests) if task["kind"] == "sequence" else 0
        obs, reward, term, trunc, info = env.step(np.eye(size)[act])
        if len(w.calls) != calls + 1 or reward != len(w.calls):
            w.bad("reward", f"step {n}: {len(w.calls) - calls} rewards asked for, returned {reward}")
            break
        proc, inv = w.calls[-1]
        if inv != (not valid):
            w.bad("invalid", f"step {n}: action {act} on {nw or offered} reported as {'invalid' if inv else 'valid'}")
        if term != (env.runner.env.now >= 25) or trunc or info != {"now": env.runner.env.now}:
            w.bad("answer", f"step {n}: terminated {term}, truncated {trunc}, info {info} at {env.runner.env.now}")
        if task["kind"] == "sequence":
            if valid and proc is not want:
                w.bad("reward", f"step {n}: rewarded for another request")
            if not any(proc is q for q in menu):
                w.bad("choice", f"step {n}: a request outside of the menu was processed")
            w.decisions.append((now, proc.product.product_data.ID, proc.process.process_data.ID))
        else:
            got = env.get_chosen_resource().data.ID
            if valid and got != want or got not in offered:
                w.bad("choice", f"step {n}: chosen {want}, carried out {got}, offered {offered}")
            q = menu[0]
            tp = hasattr(q, "target") and q.target is not None
            w.decisions.append((now, "T" if tp else "P", q.product.product_data.ID, got))
        if env.step_count < n:
            w.bad("steps", f"{n} steps taken, {env.step_count} counted")
    # the agent leaves
    if task["kind"] == "sequence":
        env.resource_controller.control_policy = lambda requests: None
    else:
        env.router.routing_heuristic = lambda requests: None
        if env.chose_resource_event is not None and not env.chose_resource_event.triggered:
            env.chose_resource_event.succeed()
    simpy.core.Environment.run(env.runner.env, until=task["horizon"])


def check_menu(spec, env, menu, w):
    q = menu[0]
    if any(x.product is not q.product or x.process.process_data.ID != q.process.process_data.ID and not hasattr(x, "target") for x in menu):
        w.bad("menu", "the possibilities belong to different decisions")
    if getattr(q, "target", None) is not None:
        return
    p = q.product
    need = p.next_prodution_process.process_data.ID
    offer = {}
    for x in menu:
        r = x.resource.data.ID
        offer[r] = x
        if not any(matches(spec, need, h) for h in spec["res"][r]["procs"]):
            w.bad("menu", f"{p.product_data.ID} needs {need}, {r} does not offer it")
        if any(iq.full for iq in x.resource.input_queues):
            w.bad("menu", f"{r} is offered with a full queue")
    for r, v in spec["res"].items():
        if not v.get("transport") and any(matches(spec, need, h) for h in v["procs"]) and r not in offer:
            res = env.runner.resource_factory.get_resource(r)
            if not any(iq.full for iq in res.input_queues):
                w.bad("menu", f"{r} offers {need} and is free, but is not in the menu of {p.product_data.ID}")


def realised(task, tr, w):
    """the history carries out the decisions in their order"""
    out = []
    if task["kind"] == "sequence":
        v = task["spec"]["res"][task["res"]]
        kind = "Transport" if v.get("transport") else "Production"
        starts = [(e.p, e.s) for e in sorted(by(tr, kind), key=lambda e: e.i0) if e.r == task["res"]]
        chosen = [(p, q) for _, p, q in w.decisions]
        if kind == "Transport":
            starts, chosen = [[p for p, _ in itertools.groupby(x)] for x in ([p for p, _ in starts], [p for p, _ in chosen])]
        k = min(len(starts), len(chosen))
        a, b = starts[:k], chosen[:k]
        if kind == "Production":
            a, b = [p for p, _ in a], [p for p, _ in b]
        cap = v.get("cap", 1)
        if cap == 1 and a != b or cap > 1 and any(len(set(a[:i + 1]) - set(b[:i + cap])) for i in range(k)):
            out.append(("order", f"{task['res']} started {a}, decided {b}"))
    else:
        for kind, tag in (("Production", "P"), ("Transport", "T")):
            per, early = {}, {}
            for e in sorted(by(tr, kind), key=lambda e: e.i0):
                if kind == "Transport" and e.e:
                    continue
                early.setdefault(e.p, []).append(e.t0)
                per.setdefault(e.p, []).append(e.r)
            dec = {}
            for _, t, p, r in w.decisions:
                if t == tag:
                    dec.setdefault(p, []).append(r)
            last = max((t for t, *_ in w.decisions), default=0)
            for p, ts in early.items():
                made = sum(1 for t in ts if t < last)
                if made > len(dec.get(p, [])):
                    out.append(("route/unasked", f"{p}: {made} {kind} started until {last}, the agent was asked {len(dec.get(p, []))} times"))
            for p, rs in dec.items():
                have = per.get(p, [])
                if kind == "Transport":
                    have = have  # loaded drives only
                k = min(len(have), len(rs))
                if have[:k] != rs[:k]:
                    out.append(("route", f"{p}: {kind} by {have[:k]}, decided {rs[:k]}"))
    return out


def one(task, ch, again=False):
    w = Watch()
    tr = simrun.run(task["spec"], ch, horizon=task["horizon"], drive=lambda tr, at: drive(task, ch, tr, at, w, again))
    tr.watch = w
    return tr


def judge(task, tr, ch, res):
    rep = dict(choices=list(ch.choices))
    for sig, msg in tr.watch.problems[:3] + realised(task, tr, tr.watch):
        res.violate(sig, msg, **rep)
    for m in MON:
        for sig, msg in m(tr):
            res.violate(sig, msg, **rep)


def run_task(task, tier):
    res = Result()
    t0 = time.time()
    tag = hash(task["name"])
    gen = explore(lambda c: one(task, c), task["bound"], task["cap"], stop=lambda: time.time() - t0 > (120 if tier == "quick" else 900))
    first = None
    try:
        for ch, tr in gen:
            res["runs"] += 1
            res["transitions"] += tr.steps
            res["states"] |= {hash((tag, h)) for h in tr.hashes}
            res["outcomes"].add(simrun.fingerprint(tr))
            res["nontrivial"] += any(ch.choices)
            judge(task, tr, ch, res)
            if first is None:
                first = tr
                # the passive agent reproduces the plain simulation
                if task["kind"] == "sequence" and task["spec"]["res"][task["res"]].get("pol", "FIFO") == "FIFO":
                    plain = simrun.run(task["spec"], horizon=task["horizon"])
                    if plain.log != tr.log:
                        i = next((i for i, (x, y) in enumerate(zip(plain.log, tr.log)) if x != y), min(len(plain.log), len(tr.log)))
                        res.violate("fifo", f"an agent that always takes the first request differs from FIFO at event {i}: {tr.log[i:i + 1]} / {plain.log[i:i + 1]}", choices=[])
                # a second episode of the same environment
                two = one(task, type(ch)(list(ch.choices)), again=True)
                judge(task, two, ch, res)
                if two.log != tr.log or two.watch.decisions != tr.watch.decisions:
                    res.violate("episode", "a second episode with the same decisions differs from the first", choices=[])
            if len(res["violations"]) >= 6:
                break
    except Divergence as e:
        res.violate("nondeterministic-replay", f"same answers, different run: {e}", choices=[])
    res["capped"] = int(explore.capped)
    res["samples"].append({"task": task["name"], "episodes": res["runs"], "decisions": first.watch.decisions[:4] if first else []})
    return res


def replay(rep):
    from ..explore import Chooser
    res = Result()
    ch = Chooser(rep.get("choices", []))
    tr = one(rep["task"], ch)
    for e in tr.log:
        print({k: v for k, v in e.items() if v not in (None, "")})
    print(tr.watch.decisions, tr.error)
    judge(rep["task"], tr, ch, res)
    if rep["sig"] in ("fifo", "episode"):
        return run_task(rep["task"], "quick")
    return res
