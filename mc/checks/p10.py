"""P10: transports."""
from .. import monitors as M
from ..simmod import module

module(globals(), [M.no_error, M.transport], ["sync", "tr", "lin", "flow", "disp", "bd", "aux", "store"],
       need=lambda tr: any(e.e for e in M.by(tr, "Transport")), rule="Non-trivial: a vehicle had to drive empty to a pick-up.", every={"bd": 2})
