#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: `python3 tools/registry.py` rewrites both."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), note="", technique="", level="model_checking"):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier={"over": list(over), "text": " ".join(text.split())}, why_tests_cant=" ".join(why.split()),
                  anchors={"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech],
                           "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                           "observe_at": list(observe), "hook_needed": None},
                  _note=" ".join(note.split()), _tech=" ".join(technique.split()), _level=level))


SIM = "prodsys/simulation/"
TECH = ("explicit-state exploration of the real simulator: stateless enumeration of all random answers up to a "
        "deviation bound over enumerated small systems, with property monitors on every execution")
NOTE = ("Exhaustive over the enumerated systems and over all sequences of random answers with at most 1 (quick) / 2-3 "
        "(thorough) non-default answers; nothing is claimed for larger systems or more deviations. Trusts simpy, numpy, pydantic.")
TESTS = ("The 27 stable tests run a few example systems with one seed and compare final KPIs; they never look at every "
         "intermediate state, nor at other random outcomes, buffer sizes, capacities or breakdown times.")
LOG = ["event log of a run (post processing input)", "contents of queues and stores", "location of products and auxiliaries"]

exec(open(os.path.join(ROOT, "tools", "props.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    na = NOT_APPLICABLE
    checks = []
    for p in P:
        i = p["id"]
        if any(n["property"] == i for n in na):
            continue
        assert os.path.exists(os.path.join(ROOT, "mc", "checks", i.lower() + ".py")), i
        checks.append({"property": i, "quick_cmd": f"python3 mc/check.py {i} quick",
                       "thorough_cmd": f"python3 mc/check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": p["_tech"], "level": p["_level"],
                       "level_note": p["_note"]})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the checks replace the process-wide random primitives from outside and read the public "
                  "event log and object state. Known findings: known_findings.json."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks")


if __name__ == "__main__":
    main()
