"""P13: batches."""
from .. import monitors as M
from ..simmod import module

module(globals(), [M.no_error, M.batches, M.conservation, M.capacity, M.process_plan], ["batch"],
       need=lambda tr: len(M.by(tr, "Production")) > 1, rule="Non-trivial: more than one product was processed.")
