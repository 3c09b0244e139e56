"""a 16-byte write to any but the first quarter of a line stores only its lower 8 bytes"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from tb import TB, report, timing  # noqa: E402

OPS = [
    ('wr', 4112, 0, 85070591730234615865843651857942052864),
    ('rd', 4112, 0, 0),
]

sys.exit(report(TB(*(128, 2, 256, 128)).run(OPS, **timing(0))))
