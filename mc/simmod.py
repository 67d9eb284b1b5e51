"""Builds a check module (LEVEL, RULE, ASSUMPTIONS, tasks, run_task, replay) for a simulator property."""
from . import simcheck, suites

ASSUME = [
    "executions are those of the listed scenario families up to the stated number of non-default random answers per run",
    "random draws are replaced by finite menus (all alternatives of a choice, a few representatives of continuous draws)",
    "simpy, numpy, pydantic and the interpreter are trusted",
]


def module(ns, monitors, fams, need=None, rule="", extra=(), drop=lambda t: False, every=None):
    every = every or {}

    def tasks(tier):
        out = []
        for f in fams:
            ts = [t for t in suites.FAMILIES[f](tier) if not drop(t)]
            if tier == "quick":
                ts = ts[::every.get(f, 1)]
            out += ts
        return out

    def run_task(task, tier):
        return simcheck.run_sim_task(task, tier, monitors, need)

    def replay(rep):
        return simcheck.replay_sim(rep, monitors)

    ns.update(LEVEL="model_checking", tasks=tasks, run_task=run_task, replay=replay,
              RULE="One execution of the real simulator per scenario and per sequence of random answers with at most "
                   "`bound` deviations from the default answer. " + rule,
              ASSUMPTIONS=ASSUME + list(extra))
