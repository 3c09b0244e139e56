"""finddemo.py [nbytes assoc line data] : run from a (patched) copy of the
repository; searches random histories for one the test bench complains about,
shrinks it and prints it as JSON."""
import json
import os
import random
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from tb import TB, timing  # noqa: E402

cfgs = [tuple(int(x) for x in sys.argv[2:6])] if len(sys.argv) > 5 else [(64, 2, 128, 32), (32, 1, 128, 32), (128, 2, 128, 32), (64, 2, 128, 64)]
budget = float(sys.argv[1]) if len(sys.argv) > 1 else 60
want = sys.argv[6] if len(sys.argv) > 6 else None
t0 = time.time()
rnd = random.Random(1)
benches = {}


def bench(c):
    if c not in benches:
        benches[c] = TB(*c)
    return benches[c]


def gen(c):
    nb, assoc, line, data = c
    dwb = data // 8
    n = rnd.randint(3, 14)
    lines = [rnd.getrandbits(32) & ~(line // 8 - 1) & 0x7fffffff for _ in range(2)]
    lines += [lines[0] + nb // assoc, lines[0] + 2 * nb // assoc, lines[0] + line // 8, lines[0] ^ 0x40000000]
    ops = []
    kinds = rnd.choice([["rd", "wr"], ["rd", "wr", "inv", "fl"], ["rd", "wr", "amo"], ["rd", "wr", "amo", "inv", "fl"]])
    for _ in range(n):
        k = rnd.choice(kinds)
        l = rnd.choice(lines[:rnd.choice([2, 6])])
        if k in ("rd", "wr"):
            ln = rnd.choice([0, 0, 1, 2] + ([4] if data == 64 else []))
            sz = ln or dwb
            a = l + rnd.randrange(line // 8 // sz) * sz
            ops.append([k, a, ln, rnd.getrandbits(8 * sz)] + ([rnd.randint(1, 6)] if rnd.random() < .2 else []))
        elif k == "amo":
            ops.append([rnd.randint(3, 11), l + rnd.randrange(line // 32) * 4, 0 if data == 32 else 4, rnd.getrandbits(32)])
        else:
            ops.append([k, 0, 0, 0])
    return ops


def run(c, ops, seed):
    try:
        b = bench(c).run([tuple(o) for o in ops], **timing(seed), limit=4000)
    except Exception as e:
        benches.pop(c, None)
        return [(0, "exception", repr(e)[:200])]
    if want:
        b = [x for x in b if want in x[1]]
    return b


k = 0
while time.time() - t0 < budget:
    c = cfgs[k % len(cfgs)]
    k += 1
    ops = gen(c)
    seed = rnd.choice([0, rnd.randint(1, 1000)])
    b = run(c, ops, seed)
    if b:
        while True:
            for i in range(len(ops)):
                o2 = ops[:i] + ops[i + 1:]
                if run(c, o2, seed):
                    ops = o2
                    break
            else:
                break
        if seed and run(c, ops, 0):
            seed = 0
        benches.clear()
        b = run(c, ops, seed)
        print(json.dumps(dict(cfg=c, ops=ops, seed=seed, tries=k, bad=[list(x) for x in b[:3]])))
        sys.exit(0)
print("nothing in", k, "tries")
