"""One controlled execution of the real simulator, observed through public state only."""
import copy
import hashlib
import json
import signal
import traceback

from . import build
from .explore import own_rng, Chooser


class Trace:
    pass


class Stuck(Exception):
    pass


class Hang(Exception):
    pass


MAXSTEPS_PER_INSTANT = 4000
HANG_S = 60


def _alarm(*_):
    raise Hang(f"the simulation did not return within {HANG_S} s")


def val(x):
    return getattr(x, "value", x)


def norm_log(event_data):
    out = []
    for e in event_data:
        out.append({
            "t": float(e["Time"]) if e["Time"] is not None else None, "r": e["Resource"], "s": e["State"], "ty": val(e["State Type"]),
            "a": val(e["Activity"]), "p": e.get("Product"),
            "exp": e.get("Expected End Time"), "o": e.get("Origin location"),
            "d": e.get("Target location"), "e": e.get("Empty Transport"),
        })
    return out


def run(spec, ch=None, horizon=60, observe=True, patch=None, adapter=None, drive=None):
    """Builds the system, runs it to `horizon`; returns a Trace.

    trace.log      normalised event log
    trace.snaps    list of (time, n_log, {queue: (ids)}, {product: location}) on change
    trace.error    None or (type, message, traceback) raised by the implementation

    `drive(trace, attach)` replaces the plain run; it calls attach(runner) once the simulation is initialised.
    """
    from prodsys.util.runner import Runner
    ch = ch or Chooser()
    tr = Trace()
    tr.spec, tr.ch, tr.horizon = spec, ch, horizon
    tr.error = None
    tr.snaps = []
    tr.steps = 0
    tr.hashes = set()
    tr.stuck = False
    tr.runner = None
    tr.log = []
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(HANG_S)
    with own_rng(ch):
        try:
            tr.adapter = adapter if adapter is not None else build.build(spec)
            if drive:
                drive(tr, lambda r: attach(tr, r, observe))
            else:
                r = Runner(adapter=tr.adapter)
                r.initialize_simulation()
                tr.runner = r
                if patch:
                    patch(tr)
                attach(tr, r, observe)
                r.run(horizon)
        except (Stuck, Hang) as e:
            tr.error = (type(e).__name__, str(e), "")
        except Exception as e:  # raised by the implementation
            if type(e).__name__ == "Divergence":
                raise
            tr.error = (type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:])
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if tr.runner is not None and tr.runner.event_logger is not None:
            try:
                tr.log = norm_log(tr.runner.event_logger.event_data)
            except Exception as e:
                tr.error = tr.error or ("LogError", str(e), traceback.format_exc()[-1500:])
    return tr


def attach(tr, r, observe=True):
    """Observes every step of an initialised simulation."""
    tr.runner = r
    env = r.env
    qs = list(r.queue_factory.queues)
    tr.queues = qs
    tr.qcap = {q.data.ID: q.data.capacity for q in qs}
    real_step = env.step
    st = {"last": None, "now": -1.0, "n": 0, "h": hashlib.blake2b(digest_size=8)}
    log = r.event_logger.event_data

    ctrls = [(x.data.ID, x.controller) for x in r.resource_factory.resources]
    tr.reqs = {rid: [(-1.0, 0, ())] for rid, _ in ctrls}
    lastids = {rid: () for rid, _ in ctrls}
    keep = []  # keeps requests alive so that ids stay unique

    def snap_requests():
        for rid, c in ctrls:
            ids = tuple(map(id, c.requests))
            if ids != lastids[rid]:
                lastids[rid] = ids
                keep.extend(c.requests)
                tr.reqs[rid].append((env.now, len(log), tuple(describe(q) for q in c.requests)))

    def snap():
        snap_requests()
        contents = tuple(tuple(it.ID for it in q.items) for q in qs)
        locs = tuple((p.product_data.ID, p.current_locatable.data.ID if p.current_locatable is not None else None)
                     for p in r.product_factory.products)
        key = (env.now, len(log), contents, locs)
        if key != st["last"]:
            st["last"] = key
            tr.snaps.append(key)
            tr.hashes.add(hash((env.now, contents, locs, log[-1]["Activity"] if log else None, len(log))))

    def step():
        if env.now != st["now"]:
            st["now"], st["n"] = env.now, 0
        st["n"] += 1
        if st["n"] > MAXSTEPS_PER_INSTANT:
            tr.stuck = True
            raise Stuck(f"more than {MAXSTEPS_PER_INSTANT} events at time {env.now}")
        real_step()
        tr.steps += 1
        if observe:
            snap()

    env.step = step
    if observe:
        snap()


def describe(q):
    """A request as (serial, item, process, origin, target, carrier location)."""
    n = q.__dict__.get("_mc_serial")
    if n is None:
        describe.serial += 1
        n = q.__dict__["_mc_serial"] = describe.serial
    item = q.product
    o, t = getattr(q, "origin", None), getattr(q, "target", None)
    return (n, item.product_data.ID if item is not None else None,
            q.process.process_data.ID if q.process is not None else None,
            o.data.ID if o is not None else None, t.data.ID if t is not None else None)


describe.serial = 0


def fingerprint(tr):
    h = hashlib.blake2b(digest_size=12)
    h.update(json.dumps([tr.log, tr.error[:2] if tr.error else None], sort_keys=True, default=str).encode())
    return h.hexdigest()
