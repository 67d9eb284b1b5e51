"""P05: buffer capacities and reservations."""
from .. import monitors as M
from ..simmod import module

module(globals(), [M.no_error, M.buffers], ["ports", "lin", "flow", "bd", "store"],
       need=lambda tr: any(len(c) >= (tr.spec["queues"].get(q.data.ID) or 10 ** 9) for s in tr.snaps for q, c in zip(tr.queues, s[2])),
       rule="Non-trivial: a finite buffer was full at some time.", every={"bd": 2})
