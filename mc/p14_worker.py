"""Prints the digests of the P14 scenarios (run in a fresh interpreter with another hash seed)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import boot  # noqa: E402

boot.ensure()
boot.quiet()
from mc.checks import p14  # noqa: E402

print(json.dumps({t["name"]: p14.digest(t) for t in p14.scenarios(sys.argv[1])}))
