"""P09: routing heuristics and capability matching."""
from .. import monitors as M
from ..simmod import module

module(globals(), [M.no_error, M.routing], ["sync", "flow", "lin", "disp", "offer", "plan", "tr", "store", "uneven"],
       need=lambda tr: len(getattr(tr, "route_choice", ())) > 0, rule="Non-trivial: a product had alternative resources.", every={"uneven": 3, "store": 2})
