"""P15: the event log."""
from .. import monitors as M
from ..simmod import module

module(globals(), [M.no_error, M.log_wellformed], ["sync", "flow", "sinks", "lin", "disp", "plan", "offer", "bd", "setup", "rework", "tr", "aux", "store", "batch", "charge"],
       need=lambda tr: len(tr.log) > 10, rule="Non-trivial: more than ten events.", every={"bd": 2})
