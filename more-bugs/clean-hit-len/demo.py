"""the dirty bits set for a write hit to a clean word use the length of the request waiting behind it"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from tb import TB, report, timing  # noqa: E402

OPS = [
    ('wr', 1339832960, 0, 3174383268303046295),
    ('wr', 1339832970, 2, 277),
    ('fl', 0, 0, 0),
]

sys.exit(report(TB(*(64, 2, 128, 64)).run(OPS, **timing(0))))
