"""P01: every product that enters is in exactly one place until it leaves through a sink of its type."""
from .. import monitors as M
from ..simmod import module

module(globals(), [M.no_error, M.conservation], ["sync", "ports", "flow", "sinks", "lin", "disp", "plan", "offer", "bd", "setup", "rework", "tr", "aux", "store", "batch", "charge"],
       need=lambda tr: any(len(s[3]) > 1 for s in tr.snaps),
       rule="Non-trivial: at least two products were in the system at the same time.", every={"bd": 2})
