"""The real functional model against an independent reference, on random
sequences: finds a failing input for a failed obligation, and stands in
(labelled bounded) for a module the contracts cannot read."""
import random
import time

from . import env  # noqa: F401
from .flmodel import AMO, FLConfig, INV, FLUSH, load, model


def s32(x):
    return x - (1 << 32) if x >> 31 else x


class Ref:
    """flat memory and LRU sets"""

    def __init__(self, cfg, image):
        self.cfg, self.m, self.sets = cfg, {}, {}
        for a, v in zip(image[::2], image[1::2]):
            self.put(a, 4, v)

    def get(self, a, n):
        return sum(self.m.get(a + i, 0) << 8 * i for i in range(n))

    def put(self, a, n, v):
        for i in range(n):
            self.m[a + i] = v >> 8 * i & 255

    def set_of(self, a):
        c = self.cfg
        return self.sets.setdefault((a >> c.idx_lo) % c.nsets, []), a >> c.idx_hi

    def access(self, a):
        s, t = self.set_of(a)
        hit = t in s
        if hit:
            s.remove(t)
        s.insert(0, t)
        del s[self.cfg.assoc:]
        return int(hit)

    def op(self, op, a, n, v, k):
        """-> (type, test, data)"""
        if op == "read":
            return 0, self.access(a), self.get(a, n)
        if op in ("write", "init"):
            h = self.access(a)
            self.put(a, n, v)
            return (1, h, 0) if op == "write" else (2, 0, 0)
        if op == "amo":
            s, t = self.set_of(a)
            if t in s:
                s.remove(t)
            m, w = self.get(a, 4), v & 0xffffffff
            r = {3: m + w, 4: m & w, 5: m | w, 6: w, 7: m if s32(m) < s32(w) else w, 8: min(m, w),
                 9: m if s32(m) > s32(w) else w, 10: max(m, w), 11: m ^ w}[k]
            self.put(a, 4, r)
            return k, 0, m
        if op == "invalidate":
            self.sets.clear()
            return INV, 0, 0
        return FLUSH, 0, 0


def run(mod, cfg, image, ops):
    """-> None or (step, kind, text); kind: 'memory' | 'test' | 'trace' | 'exception'"""
    import pymtl3
    from pymtl3 import Bits32, mk_bits
    lw = (cfg.data // 8).bit_length() - 1
    BL, BD, BO = mk_bits(lw), mk_bits(cfg.data), mk_bits(8)
    ref = Ref(cfg, image)
    try:
        c = mod.ModelCache(cfg.nbytes, cfg.assoc, cfg.nbanks, *cfg.types(), list(image))
    except Exception as e:      # noqa: BLE001
        return -1, "exception", f"constructor: {type(e).__name__}: {e}"
    for i, (op, a, ln, n, v, k) in enumerate(ops):
        opq = (i * 37 + 5) & 255
        A, L, D, O = Bits32(a), BL(ln), BD(v), BO(opq)
        want = ref.op(op, a, n, v, k)
        try:
            if op == "read":
                c.read(A, O, L)
            elif op in ("write", "init"):
                getattr(c, op)(A, D, O, L)
            elif op == "amo":
                c.amo(A, D, O, L, pymtl3.b4(k))
            else:
                getattr(c, op)(O)
            T = c.get_transactions()
        except Exception as e:  # noqa: BLE001
            return i, "exception", f"{op} {a:#x} len {ln}: {type(e).__name__}: {e}"
        if len(T) != 2 * (i + 1):
            return i, "trace", f"{op}: {len(T)} transactions after {i + 1} operations"
        q, r = T[-2], T[-1]
        noaddr = op in ("invalidate", "flush")
        qd = {"read": 0, "amo": v & 0xffffffff, "invalidate": 0, "flush": 0}.get(op, v)
        wq = (want[0], opq, 0 if noaddr else a, 0 if noaddr else ln, qd)
        gq = tuple(int(x) for x in (q.type_, q.opaque, q.addr, q.len, q.data))
        if wq != gq:
            return i, "trace", f"{op}: request recorded as {gq}, expected {wq}"
        wr = (want[0], opq, 0 if noaddr else ln)
        gr = tuple(int(x) for x in (r.type_, r.opaque, r.len))
        if wr != gr:
            return i, "trace", f"{op}: response recorded as {gr}, expected {wr}"
        if int(r.data) != want[2]:
            return i, "memory", f"{op} {a:#x} len {ln}: response data {int(r.data):#x}, expected {want[2]:#x}"
        if int(r.test) != want[1]:
            return i, "test", f"{op} {a:#x}: test bit {int(r.test)}, expected {want[1]}"
    return None


def stimulus(cfg, r):
    lines = []
    base = r.getrandbits(32) >> cfg.off << cfg.off
    for _ in range(r.choice([2, 3, 5, 9])):
        x = base
        for _ in range(r.choice([0, 1, 1, 2])):
            x ^= 1 << r.randrange(cfg.off, 32)
        if r.random() < .2:
            x = r.choice([0, 0xffffffff, 0x80000000]) >> cfg.off << cfg.off
        lines.append(x)
    vals = [0, 0xffffffff, 0x80000000, 0x7fffffff, 1, r.getrandbits(cfg.data), r.getrandbits(cfg.data)]
    offs = [r.randrange(cfg.line // 8) for _ in range(3)]
    ops = []
    w = [r.choice([1, 3, 6]), r.choice([1, 3, 6]), r.choice([0, 0, 1]), r.choice([0, 1, 3]), r.choice([0, 0, .3]),
         r.choice([0, 0, .3])]
    image = []
    for x in lines:
        for o in range(0, cfg.line // 8, 4):
            if r.random() < .3:
                image += [x + o, r.choice(vals) & 0xffffffff]
    for _ in range(r.choice([4, 10, 30, 60])):
        op = r.choices(["read", "write", "init", "amo", "invalidate", "flush"], w)[0]
        ln, n = r.choice(cfg.lens())
        if op == "amo":
            ln, n = (0 if cfg.data == 32 else 4), 4
        a = r.choice(lines) + (r.choice(offs) if r.random() < .7 else r.randrange(cfg.line // 8)) // n * n
        v = (r.choice(vals) if r.random() < .6 else r.getrandbits(cfg.data)) & ((1 << cfg.data) - 1)
        ops.append((op, a, ln, n, v, r.choice(list(AMO.values()))))
    return image, ops


def shrink(mod, cfg, image, ops, kinds):
    def bad(i, o):
        f = run(mod, cfg, i, o)
        return f and f[1] in kinds
    f = run(mod, cfg, image, ops)
    ops = ops[:f[0] + 1] if f[0] >= 0 else []
    again = True
    while again:
        again = False
        for j in range(len(ops) - 1, -1, -1):
            o = ops[:j] + ops[j + 1:]
            if bad(image, o):
                ops, again = o, True
        for j in range(len(image) - 2, -1, -2):
            i = image[:j] + image[j + 2:]
            if bad(i, ops):
                image, again = i, True
    return image, ops, run(mod, cfg, image, ops)


def search(cfgs, seed, secs, kinds):
    """-> (hit or None, numbers)"""
    r = random.Random(seed)
    end = time.time() + secs
    tot = dict(runs=0, operations=0, failing=0)
    try:
        mod = load("_fl_real")
    except Exception as e:      # noqa: BLE001
        return (cfgs[0], [], [], (-1, "exception", f"import: {type(e).__name__}: {e}")), tot
    while time.time() < end:
        cfg = r.choice(cfgs)
        image, ops = stimulus(cfg, r)
        f = run(mod, cfg, image, ops)
        tot["runs"] += 1
        tot["operations"] += len(ops)
        if f:
            tot["failing"] += 1
            if f[1] in kinds:
                return (cfg,) + shrink(mod, cfg, image, ops, kinds), tot
    return None, tot


def replay(d):
    cfg = FLConfig(**d["config"])
    return run(load("_fl_replay"), cfg, d["image"], [tuple(x) for x in d["operations"]])


if __name__ == "__main__":
    import json
    import sys
    r = replay(json.load(open(sys.argv[1])))
    print(r or "no violation")
    sys.exit(1 if r else 0)
