"""Reads the public event log back into episodes."""
EPS = 1e-6
INF = float("inf")


class Ep:
    __slots__ = ("kind", "r", "s", "p", "t0", "t1", "segs", "ints", "exp0", "o", "d", "e", "i0", "i1", "exps")

    def __repr__(self):
        return f"<{self.kind} {self.r}/{self.s} {self.p} {self.t0}..{self.t1} {self.o}->{self.d}>"

    @property
    def worked(self):
        return sum(b - a for a, b in self.segs if b is not None)


ACTS = {"start state", "end state", "start interrupt", "end interrupt"}
KINDS = {"Production", "Transport", "Setup", "Breakdown", "ProcessBreakdown", "Charging"}


def episodes(tr):
    """-> (episodes in start order, list of structural problems)"""
    cached = getattr(tr, "_eps", None)
    if cached is not None:
        return cached
    open_, out, bad = {}, [], []
    for i, e in enumerate(tr.log):
        if e["ty"] not in KINDS or e["a"] not in ACTS:
            continue
        k = (e["r"], e["s"], e["p"] if e["ty"] in ("Production", "Transport") else None)
        a = e["a"]
        cur = open_.get(k)
        if a == "start state":
            if cur is None:
                ep = Ep()
                ep.kind, ep.r, ep.s, ep.p = e["ty"], e["r"], e["s"], e["p"]
                ep.t0, ep.t1, ep.exp0 = e["t"], None, e["exp"]
                ep.o, ep.d, ep.e = e["o"], e["d"], e["e"]
                ep.segs, ep.ints, ep.exps, ep.i0, ep.i1 = [[e["t"], None]], [], [(e["t"], e["exp"])], i, None
                open_[k] = ep
                out.append(ep)
            else:
                if cur.segs[-1][1] is None:
                    bad.append(("double-start", f"{e['ty']} {e['s']} of {e['r']} starts twice at {e['t']} ({e['p']})"))
                cur.segs.append([e["t"], None])
                cur.exps.append((e["t"], e["exp"]))
                if cur.ints and cur.ints[-1][1] is None:
                    bad.append(("start-while-interrupted", f"{e['s']} of {e['r']} starts at {e['t']} while interrupted"))
        elif cur is None:
            bad.append(("event-without-start", f"{a} of {e['ty']} {e['s']} at {e['r']} t={e['t']} ({e['p']}) without a start"))
        elif a == "start interrupt":
            if cur.segs[-1][1] is not None:
                bad.append(("interrupt-while-not-running", f"{e['s']} of {e['r']} interrupted at {e['t']} while not running"))
            cur.segs[-1][1] = e["t"]
            cur.ints.append([e["t"], None])
        elif a == "end interrupt":
            if not cur.ints or cur.ints[-1][1] is not None:
                bad.append(("resume-without-interrupt", f"{e['s']} of {e['r']} resumes at {e['t']} without interrupt"))
            else:
                cur.ints[-1][1] = e["t"]
        elif a == "end state":
            if cur.segs[-1][1] is not None:
                bad.append(("end-while-not-running", f"{e['s']} of {e['r']} ends at {e['t']} while not running"))
            cur.segs[-1][1] = e["t"]
            cur.t1, cur.i1 = e["t"], i
            del open_[k]
    tr._eps = (out, bad)
    return tr._eps


def by(tr, *kinds):
    return [e for e in episodes(tr)[0] if e.kind in kinds]


def endt(ep, tr):
    return ep.t1 if ep.t1 is not None else tr.horizon


def overlap(a, b):
    return min(a[1], b[1]) - max(a[0], b[0])


def max_concurrent(intervals):
    ev = []
    for a, b in intervals:
        if b - a > EPS:
            ev += [(a + EPS / 4, 1), (b - EPS / 4, -1)]
    ev.sort()
    n = m = 0
    for _, d in ev:
        n += d
        m = max(m, n)
    return m


def ptype(spec, pid):
    return pid.rsplit("_", 1)[0]


def is_product(spec, pid):
    return pid is not None and any(pid.rsplit("_", 1)[0] == v.get("type", k) for k, v in spec["prods"].items())


def created(tr):
    return [(e["t"], e["p"], e["r"]) for e in tr.log if e["a"] == "created product"]


def finished(tr):
    return [(e["t"], e["p"], e["r"]) for e in tr.log if e["a"] == "finished product"]


def steps_of(tr, pid):
    return sorted((e for e in by(tr, "Production") if e.p == pid), key=lambda e: e.i0)


def tm_domain(v):
    """Set of values a time model of the spec can produce (None: continuous)."""
    if isinstance(v, (int, float)):
        return {float(v)}
    if isinstance(v, (list, tuple)):
        return {float(x) for x in v}
    if "sched" in v:
        s = v["sched"]
        if v.get("abs", True):
            s = [s[0]] + [b - a for a, b in zip(s, s[1:])]
        return {float(x) for x in s}
    if "seq" in v:
        return {float(x) for x in v["seq"]}
    return None


def tm_mean(v):
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, (list, tuple)):
        return sum(v) / len(v)
    if "sched" in v:
        s = v["sched"]
        if v.get("abs", True):
            s = [s[0]] + [b - a for a, b in zip(s, s[1:])]
        return sum(s) / len(s)
    if "fn" in v:
        return v["fn"][1]
    if "seq" in v:
        return sum(v["seq"]) / len(v["seq"])
    return None


def matches(spec, want, have):
    """Does an offered process `have` satisfy the requested process `want`? (reference)"""
    w, h = spec["procs"][want], spec["procs"][have]
    wk, hk = w.get("kind", "P"), h.get("kind", "P")
    if wk == "CP":
        return hk in ("P", "C", "T", "L") and (have in w["ids"] or any(
            h.get("cap") and spec["procs"][x].get("cap") == h["cap"] for x in w["ids"]))
    if wk in ("P", "T", "L"):
        return want == have
    if wk in ("RC", "C"):
        return hk in (("C", "L") if wk == "RC" else ("C",)) and w["cap"] == h.get("cap")
    if wk == "RW":
        return want == have
    return False
