"""P06: breakdowns stop work and lose none."""
from .. import monitors as M
from ..simmod import module

module(globals(), [M.no_error, M.breakdowns, M.liveness], ["bd", "setup"],
       need=lambda tr: any(e.ints for e in M.episodes(tr)[0]), rule="Non-trivial: a breakdown interrupted an activity.")
