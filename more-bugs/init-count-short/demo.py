"""the initialization walk after reset skips the last line, so a line cached before the reset is still served as a hit"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from tb import TB, report, timing  # noqa: E402

OPS = [
    ('wr', 112, 0, 17185),
    ('wr', 80, 0, 4660),
    ('rst',),
    ('rd', 112, 0, 0),
    ('rd', 80, 0, 0),
]

sys.exit(report(TB(*(64, 1, 128, 32)).run(OPS, **timing(0))))
