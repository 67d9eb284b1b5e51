"""P12: auxiliaries."""
from .. import monitors as M
from ..simmod import module

module(globals(), [M.no_error, M.auxiliary, M.liveness], ["aux"],
       need=lambda tr: any(e["a"] == "finished auxiliary usage" for e in tr.log), rule="Non-trivial: an auxiliary was used and returned.")
