"""Every supported configuration elaborates: the real model is built, scheduled
and driven for a while for each member of a grid of parameters.  Enumeration,
not proof; the proof of P12 is for the configurations listed there."""
import json
import random
import sys
import time

from . import env  # noqa: F401
from .cache import Config


def configs(thorough):
    """all combinations of line, data and associativity, each with several
    sizes, address and opaque widths; plus sizes past 1023 lines per way"""
    out = []
    shapes = [(32, 8), (24, 4), (64, 16), (16, 1), (48, 8), (32, 32)]
    k = 0
    for line in (64, 128, 256, 512):
        for data in (32, 64, 128):      # the documented access widths end at 16 bytes
            if data > line:
                continue
            for assoc in (1, 2):
                for sets in ((2, 16, 64, 256) if thorough else (2, 32)):
                    a, o = shapes[k % len(shapes)]
                    k += 1
                    out.append(Config(line // 8 * assoc * sets, assoc, line, data, a, o))
    out += [Config(16384, 1), Config(32768, 2), Config(65536, 1, 512, 64), Config(8192, 1, 64, 64),
            Config(16384, 2, 64, 32), Config(1024 * 64, 2, 256, 128, 40, 8)]
    if thorough:
        out += [Config(65536, 2), Config(65536, 1), Config(131072, 2, 256, 32), Config(131072, 1, 128, 128)]
    return out


def one(args):
    """-> (cfg, error or None, cycles, requests)"""
    cfg, seed, runs = args
    from . import realsim
    import warnings
    warnings.simplefilter("ignore")
    cyc = req = 0
    try:
        dut = realsim.build(cfg)
        dut.sim_reset()
    except Exception as e:      # noqa: BLE001
        return cfg, f"elaboration: {type(e).__name__}: {str(e)[:300]}", 0, 0
    for r in range(runs):
        A, rows, outs, err = realsim.one(cfg, seed * 1009 + r, 100, [], dut)
        cyc += len(rows)
        req += sum(x["creq_en"] for x in rows)
        if err:
            from .replay import judge
            found, ill = judge(cfg, A, rows, outs, err)
            f = [x for x in found if x[1] == "exception"]
            if f:
                return cfg, f"cycle {f[0][0]}: {f[0][2]} (seed {seed})", cyc, req
            break
    return cfg, None, cyc, req


def sweep(thorough, seed, procs=8):
    import multiprocessing as mp
    rnd = random.Random(seed)
    jobs = [(c, rnd.randrange(1 << 20), 6 if thorough else 1) for c in configs(thorough)]
    jobs.sort(key=lambda j: -j[0].nbytes)
    with mp.get_context("fork").Pool(procs) as pool:
        return [x + (j[1],) for x, j in zip(pool.imap(one, jobs), jobs)]


def main(path):
    x = json.load(open(path))
    r = one((Config(**x["config"]), x["seed"], x["runs"]))
    print(r[0], r[1] or "no error")
    return 1 if r[1] else 0


if __name__ == "__main__":
    t = time.time()
    if len(sys.argv) > 1 and sys.argv[1].endswith(".json"):
        sys.exit(main(sys.argv[1]))
    for r in sweep(False, 1, int(sys.argv[1]) if len(sys.argv) > 1 else 8):
        if r[1]:
            print(*r[:2])
    print(time.time() - t)
