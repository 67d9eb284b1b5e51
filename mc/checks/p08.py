"""P08: control policies."""
from .. import monitors as M
from ..simmod import module

module(globals(), [M.no_error, M.dispatch], ["sync", "disp", "flow", "tr", "setup"],
       need=lambda tr: getattr(tr, "n_choices", 0) > 0, rule="Non-trivial: a policy had to choose between waiting requests.")
