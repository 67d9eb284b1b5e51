"""P04: capacities of resources and processes."""
from .. import monitors as M
from ..simmod import module

module(globals(), [M.no_error, M.capacity], ["sync", "flow", "lin", "disp", "offer", "bd", "setup", "tr", "aux", "rework", "batch", "charge"],
       need=lambda tr: any(len(x[2]) > 0 for r in tr.reqs.values() for x in r),
       rule="Non-trivial: a request had to wait.", every={"bd": 2})
