"""P07: setups."""
from .. import monitors as M
from ..simmod import module

module(globals(), [M.no_error, M.setups, M.liveness], ["setup"],
       need=lambda tr: any(e.kind == "Setup" for e in M.episodes(tr)[0]), rule="Non-trivial: a changeover happened.")
