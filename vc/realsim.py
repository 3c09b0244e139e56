"""Random legal stimulus on the real PyMTL simulation, judged by the scoreboard
of replay.py.  A search for failing inputs and the labelled bounded stand-in
where a tree is outside the extractor's reach; never a proof."""
import ast
import os
import random
import time

from . import env
from .cache import READ, WRITE, INV, FLUSH, log2
from .cachesim import amo
from .replay import FIELDS, after_reset, put_inputs, get_outputs, judge, replay


def source_constants():
    """integers written in the sources: a dictionary for the generator"""
    r = set()
    for root, ds, fs in os.walk(env.REPO):
        ds[:] = [d for d in ds if "test" not in d and not d.startswith(".")]
        for f in fs:
            if f.endswith(".py"):
                try:
                    t = ast.parse(open(os.path.join(root, f)).read())
                except (OSError, SyntaxError):
                    continue
                for n in ast.walk(t):
                    if isinstance(n, ast.Constant) and type(n.value) is int and n.value > 8:
                        r.add(n.value)
    return sorted(r)


def build(cfg):
    from pymtl3 import DefaultPassGroup
    dut = cfg.make()
    dut.apply(DefaultPassGroup())
    return dut


def one(cfg, seed, cycles, pool, dut, resets=False):
    """-> (A, rows, outs, err)"""
    rnd = random.Random(seed)
    lb = cfg.line // 8
    nsets = cfg.nbytes // lb // cfg.assoc
    offw, idxw = log2(lb), log2(nsets)
    tagw = cfg.addr - offw - idxw
    sets = [rnd.choice([0, nsets - 1, rnd.randrange(nsets)]) for _ in range(rnd.choice([1, 1, 2]))]
    tags = [rnd.choice([rnd.getrandbits(tagw), rnd.randrange(4), (1 << tagw) - 1]) for _ in range(rnd.randint(2, 4))]
    hot = [((t % (1 << tagw)) << idxw | s) << offw for t in tags for s in sets]
    if pool and rnd.random() < .3:
        hot[rnd.randrange(len(hot))] = rnd.choice(pool) % (1 << cfg.addr) // lb * lb
    A = rnd.choice(hot) | rnd.randrange(lb)
    mix = rnd.choice([(4, 4, 1, .3, .3), (6, 6, 0, 0, 0), (3, 3, 2, 1, 1), (4, 6, 2, .2, 0), (4, 4, 1, 1, 0),
                      (4, 4, 1, 0, 1), (1, 1, 3, .5, .5), (2, 4, 0, .5, .5)])
    pen = rnd.choice([.2, .6, 1])
    pr = rnd.choice([(1, 1), (1, 1), (.5, 1), (1, .5), (.5, .5), (.2, .9)])
    pmem = rnd.choice([1, .5, .1])
    prst = .02 if resets else rnd.choice([0, 0, 0, .01])
    mem, q, rows, outs, err = {}, [], [], [], None
    rst = rnd.randint(1, 3)

    def get(a):
        if a not in mem:
            mem[a] = rnd.getrandbits(8)
        return mem[a]
    for cyc in range(cycles):
        if not rst and cyc > 10 and rnd.random() < prst:
            rst = rnd.randint(1, 2)
        i = dict.fromkeys(FIELDS, 0)
        if rst:
            rst -= 1
            i["reset"] = 1
            q = []
        else:
            i["cresp_rdy"], i["mreq_rdy"] = int(rnd.random() < pr[0]), int(rnd.random() < pr[1])
        try:
            if not i["reset"]:
                put_inputs(dut, i)
                dut.sim_eval_combinational()
                if int(dut.mem_minion_ifc.req.rdy) and rnd.random() < pen:
                    k = rnd.choices(range(5), mix)[0]
                    a = rnd.choice(hot + [A // lb * lb] * 2)
                    full = cfg.data // 8
                    j = rnd.randint(0, log2(full))
                    sz = 1 << j if rnd.random() < .5 else full
                    ln = 0 if sz == full else sz
                    if k == 1 and cfg.data == 32 and cfg.line >= 64 and rnd.random() < .1:
                        sz, ln = 8, 3
                    if k == 2:
                        sz, ln = 4, (0 if cfg.data == 32 else 4)
                    off = rnd.choice([A % lb, rnd.randrange(lb)]) // sz * sz
                    i["creq_en"] = 1
                    i["creq_type_"] = (READ, WRITE, rnd.randint(3, 11), INV, FLUSH)[k]
                    i["creq_opaque"] = rnd.getrandbits(cfg.opq)
                    i["creq_addr"], i["creq_len"] = (a + off, ln) if k < 3 else (0, 0)
                    i["creq_data"] = rnd.choice([rnd.getrandbits(cfg.data), rnd.getrandbits(cfg.data),
                                                 (1 << cfg.data) - 1, 0])
                    if pool and rnd.random() < .1:
                        i["creq_data"] = rnd.choice(pool) % (1 << cfg.data)
                if q and rnd.random() < pmem:
                    t, a, old = q.pop(0)
                    i["mresp_en"], i["mresp_type_"] = 1, t
                    if t == READ:
                        i["mresp_data"] = sum(get(a // lb * lb + b) << (8 * b) for b in range(lb))
                    elif t == WRITE:
                        i["mresp_data"] = rnd.getrandbits(cfg.line)
                    else:
                        i["mresp_data"] = old
            put_inputs(dut, i)
            dut.sim_eval_combinational()
            o = get_outputs(dut)
            if o["mreq_en"] and not i["reset"]:
                t, a, old = o["mreq_type_"], o["mreq_addr"], 0
                if t == WRITE:
                    for b in range(lb):
                        if o["mreq_wr_mask"] >> (b // 4) & 1:
                            mem[a // lb * lb + b] = o["mreq_data"] >> (8 * b) & 255
                elif 3 <= t <= 11:
                    w = a & ~3
                    old = sum(get(w + b) << (8 * b) for b in range(4))
                    nv = amo(t, old, o["mreq_data"] & 0xffffffff)
                    for b in range(4):
                        mem[w + b] = nv >> (8 * b) & 255
                q.append((t, a, old))
            dut.sim_tick()
        except Exception as x:      # noqa: BLE001
            err = (cyc, f"{type(x).__name__}: {x}")
            rows.append(i)
            break
        rows.append(i)
        outs.append(o)
    return A, rows, outs, err


def worker(args):
    """(cfg, seed, seconds, names) -> dict"""
    cfg, seed, seconds, names = args
    t0, runs, cyc, reqs, hit, other = time.time(), 0, 0, 0, None, set()
    pool = source_constants()
    k = 0
    dut, full = build(cfg), []
    while time.time() - t0 < seconds and hit is None:
        A, rows, outs, err = one(cfg, seed * 100003 + k, 300, pool, dut,
                                   names is not None and "reset_forgets" in names)
        if err:
            dut = build(cfg)
        k += 1
        runs += 1
        cyc += len(rows)
        reqs += sum(r["creq_en"] for r in rows)
        found, ill = judge(cfg, A, rows, outs, err)
        other |= {f[1] for f in found}
        if names and "reset_forgets" in names:
            found = found + after_reset(cfg, rows, outs)
        f = [x for x in found if names is None or x[1] in names]
        if f:
            tr = [[r[n] for n in FIELDS] for r in rows[:f[0][0] + 1]]
            again, _ = replay(cfg, A, tr)
            if not [x for x in again if names is None or x[1] in names]:
                tr = full + tr      # needs what went before
            hit = (f[0], A, tr)
        full += [[r[n] for n in FIELDS] for r in rows]
        if err:
            full = []
    return dict(runs=runs, cycles=cyc, requests=reqs, hit=hit, other=sorted(other), cfg=cfg)


def search(cfgs, seed, seconds, names, procs=8):
    import multiprocessing as mp
    jobs = [(cfgs[j % len(cfgs)], seed * 1000 + j, seconds, names) for j in range(procs)]
    tot = dict(runs=0, cycles=0, requests=0, hit=None, other=set())
    with mp.get_context("fork").Pool(procs) as pool:
        for r in pool.imap_unordered(worker, jobs):
            for n in ("runs", "cycles", "requests"):
                tot[n] += r[n]
            tot["other"] |= set(r["other"])
            if r["hit"] and tot["hit"] is None:
                tot["hit"] = (r["cfg"],) + r["hit"]
                break
    return tot
