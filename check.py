#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current tree.
Exit 0: held; exit 1 with a VIOLATION line: broken."""
import os
import sys

PY = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") and os.path.exists(PY):
    os.execv(PY, [PY, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc import env  # noqa: E402,F401
from vc.report import Report  # noqa: E402


def main():
    pid = sys.argv[1]
    rep = Report(pid)
    from vc import cacheprops
    if pid in cacheprops.PROPS:
        cacheprops.check(rep, cacheprops.PROPS[pid])
    else:
        from vc import unitprops
        unitprops.check(rep, pid)
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())
