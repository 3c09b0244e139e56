"""Nothing to build: checks that the interpreter, PyMTL3 and z3 are there."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import env  # noqa: E402,F401
import pymtl3  # noqa: E402
import z3  # noqa: E402
print("python", sys.version.split()[0], "z3", z3.get_version_string())
