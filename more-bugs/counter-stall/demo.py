"""the line counter of FLUSH advances while the pipeline is held up, so the walk skips a dirty line"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from tb import TB, report, timing  # noqa: E402

OPS = [
    ('wr', 2101744888, 0, 1358703066),
    ('fl', 0, 0, 0),
]

sys.exit(report(TB(*(64, 2, 128, 32)).run(OPS, **timing(497))))
