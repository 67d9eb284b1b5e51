#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough] [--replay FILE] [--only SUBSTR] [-v]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import boot  # noqa: E402

boot.ensure()
from mc import harness  # noqa: E402

if __name__ == "__main__":
    sys.exit(harness.main(sys.argv[1], sys.argv[2:]))
