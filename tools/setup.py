#!/usr/bin/env python3
"""setup_cmd: nothing to build; verifies that the repository's interpreter can import the code under test."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import boot  # noqa: E402

boot.ensure()
boot.quiet()
print("ok")
