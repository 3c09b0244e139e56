"""mkseed.py NAME DIFF PROPERTY NEEDS BREAKS CFG OPS SEED : writes seeded/NAME
and checks its demonstration on the unchanged and the patched tree."""
import json
import os
import shutil
import subprocess
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(name, diff, prop, needs, breaks, cfg=None, ops=None, seed=0, demo=None):
    d = f"{H}/seeded/{name}"
    os.makedirs(d, exist_ok=True)
    if os.path.abspath(diff) != f"{d}/patch.diff":
        shutil.copy(diff, f"{d}/patch.diff")
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    if demo is None:
        shutil.copy(f"{H}/tools/tb.py", f"{d}/tb.py")
        lines = "".join(f"    {tuple(o)!r},\n" for o in ops)
        demo = f'''"""{breaks}"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from tb import TB, report, timing  # noqa: E402

OPS = [
{lines}]

sys.exit(report(TB(*{tuple(cfg)!r}).run(OPS, **timing({seed}))))
'''
    open(f"{d}/demo.py", "w").write(demo)
    w = f"/tmp/mkseed/{name}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run(["cp", "-a", "/repo", f"{w}/repo"], check=True)
    shutil.copytree(d, f"{w}/demo")
    r = []
    for k in (0, 1):
        if k:
            subprocess.run(["git", "apply", f"{d}/patch.diff"], cwd=f"{w}/repo", check=True)
        p = subprocess.run(["bash", f"{w}/demo/demo.sh"], cwd=f"{w}/repo", capture_output=True, text=True)
        r.append((p.returncode, (p.stdout + p.stderr)[-300:]))
    shutil.rmtree(w)
    print(name, "ok" if r[0][0] == 0 and r[1][0] else "BAD", r)


if __name__ == "__main__":
    a = json.load(open(sys.argv[1]))
    for x in a if isinstance(a, list) else [a]:
        make(**x)
