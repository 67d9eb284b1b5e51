"""P11: progress: nothing waits for ever, nothing idles needlessly."""
from .. import monitors as M
from ..simmod import module


def _reentrant_blocking(t):
    """Finite buffers on a cyclic material flow may block for ever: no defect."""
    return t["name"].startswith("flow/") and "/in0out0/" not in t["name"] and "two-types" not in t["name"]


module(globals(), [M.liveness, M.work_conserving, M.unrouted], ["sync", "ports", "flow", "lin", "disp", "uneven", "plan", "offer", "bd", "setup", "rework", "tr", "aux", "store", "charge", "places"],
       need=lambda tr: any(len(x[2]) > 0 for r in tr.reqs.values() for x in r), drop=_reentrant_blocking,
       rule="Non-trivial: a request had to wait.", every={"bd": 2})
