"""P02: process plans and precedence graphs."""
from .. import monitors as M
from ..simmod import module

module(globals(), [M.no_error, M.process_plan], ["sync", "plan", "offer", "flow", "sinks", "lin", "setup", "rework", "batch", "aux"],
       need=lambda tr: len(M.finished(tr)) > 0, rule="Non-trivial: a product finished.")
