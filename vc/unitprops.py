"""Properties of the parts: the functional model, the SRAM, composition."""
import time

from . import env  # noqa: F401
from .runner import Job, run

FLQ = [(4096, 2), (64, 1), (4096, 1, 128, 64), (1024, 2, 128, 128), (64, 2, 64, 32), (4096, 2, 256, 64),
       (2048, 1, 64, 64), (4096, 2, 128, 32, 4), (1024, 4)]
FLT = FLQ + [(65536, 2), (4096, 1, 512, 32), (2048, 2, 512, 128), (2048, 4, 256, 32), (16384, 1), (256, 2, 512, 64),
             (4096, 1, 256, 128, 2), (32, 1), (128, 2, 256, 256), (4096, 8)]

FL_FUNS = ["ModelCache.__init__", "ModelCache.check_hit", "ModelCache.read", "ModelCache.write", "ModelCache.init",
           "ModelCache.amo", "ModelCache.invalidate", "ModelCache.flush", "ModelCache.get_transactions", "req", "resp",
           "AMO_FUNS"]
FL_TRK = ["HitMissTracker.__init__", "HitMissTracker.split_address", "HitMissTracker.lru_hit",
          "HitMissTracker.lru_get", "HitMissTracker.tag_check", "HitMissTracker.refill",
          "HitMissTracker.access_address", "HitMissTracker.lru_set", "HitMissTracker.amo_req",
          "HitMissTracker.invalidate"]
FL_TRUST = ["vc/pyexec.py: proxy values standing for Bits and int in the real functions (compared with PyMTL3's Bits "
            "on random operations in every run); message classes are replaced by recorders with the same field widths",
            "z3 (QF_BV)", "CPython", "vc/flmodel.py: the contracts themselves"]
FL_ASSUME = ["addresses are Bits32; READ/WRITE/INIT lengths are powers of two up to the data width, aligned to the "
             "length; AMOs are word sized and aligned; opaque is 8 bits wide",
             "message field assignment checks widths as PyMTL3 bitstructs do",
             "the memory image is a list of word-aligned addresses and 32-bit values"]


def fl_jobs(cfg, pid):
    from . import flmodel as fm
    end = time.time() + 600
    jobs = []

    def job(name, f):
        def go():
            from . import pyexec as px
            t = time.time()
            try:
                return f().results(name)
            except (px.Unsupported, px.PathLimit) as e:
                return [(name, "unreached", f"{type(e).__name__}: {e}", time.time() - t)]
        jobs.append(Job(cfg, "contract", name, [], go))

    memo = {}

    def fe():
        if "x" not in memo:
            memo["x"] = fm.FLEnv(cfg)
        return memo["x"]

    for op in ("read", "write", "init"):
        for ln, n in cfg.lens():
            for o in range(0, cfg.line // 8, n):
                job(f"ModelCache.{op} offset {o} len {ln}", lambda op=op, o=o, ln=ln, n=n: fm.run_model(fe(), op, o, ln, n, None, end))
    for k in fm.AMO:
        for o in range(0, cfg.line // 8, 4):
            job(f"ModelCache.amo {k} offset {o}", lambda k=k, o=o: fm.run_model(
                fe(), "amo", o, 0 if cfg.data == 32 else 4, 4, fm.AMO[k], end))
    for op in ("invalidate", "flush"):
        job(f"ModelCache.{op}", lambda op=op: fm.run_model(fe(), op, 0, 0, 0, None, end))
    job("ModelCache.__init__", lambda: fm.init_vcs(cfg))
    if pid == "P13":
        job("ModelCache.__init__ memory image", lambda: fm.image_vcs(fe(), end))
    else:
        for op in ("access_address", "amo_req", "invalidate"):
            job(f"HitMissTracker.{op}", lambda op=op: fm.run_tracker(fe(), op, end))
    return jobs


P13_SKIP = ("response test bit", "the tracker is ", "initially nothing is cached", "initial replacement",
            "rows are separate", "initially one entry")
P14_KEEP = ("HitMissTracker", "response test bit", "the tracker is ", "initially nothing is cached",
            "initial replacement", "rows are separate", "initially one entry", "one request and one response")


def fl(rep, pid):
    from . import flsim, pyexec
    from .flmodel import FLConfig
    thorough = rep.tier == "thorough"
    cfgs = [FLConfig(*a) for a in (FLT if thorough else FLQ)]
    rep.trusted, rep.assumptions = list(FL_TRUST), list(FL_ASSUME)
    rep.functions |= set("blocking_cache/BlockingCacheFL.py:" + f for f in FL_FUNS + (FL_TRK if pid == "P14" else []))
    n, bad = pyexec.crosscheck(rep.seed, 8000 if thorough else 2000)
    rep.extra["proxy_crosscheck"] = dict(operations=n, mismatches=len(bad))
    kinds = {"exception", "trace", "memory"} if pid == "P13" else {"exception", "test"}
    jobs, unreached = [], []
    try:
        for c in cfgs:
            jobs += fl_jobs(c, pid)
        rs = run(jobs, time.time() + (1500 if thorough else 300))
    except Exception as e:      # noqa: BLE001
        rs = []
        unreached.append(f"{type(e).__name__}: {e}")
    if bad:
        unreached.append(f"proxies disagree with PyMTL3: {bad[0]}")
    for r in rs:
        if r.status in ("unreached", "error"):
            unreached.append(f"{r.name}: {r.model}")
    keep = [r for r in rs if r.status not in ("unreached", "error")]
    if pid == "P13":
        keep = [r for r in keep if not any(s in r.name for s in P13_SKIP)]
    else:
        keep = [r for r in keep if any(s in r.name for s in P14_KEEP)]
    rep.results += keep
    failed = [r for r in keep if not r.ok]
    rep.extra["configurations"] = [str(c) for c in cfgs]
    rep.extra["paths_note"] = "each obligation is discharged on every path through the function; the count is in its name"
    for r in failed[:8]:
        rep.log("failed:", r.label(), r.status, str(r.model)[:200])
    if not failed and not unreached:
        return
    secs = (600 if thorough else 60) if unreached else (300 if thorough else 120)
    small = [FLConfig(*a) for a in FLQ] + [FLConfig(64, 2), FLConfig(64, 2, 128, 64), FLConfig(128, 2, 64, 64)]
    hit, tot = flsim.search(small + [r.cfg for r in failed[:3] for _ in range(3)], rep.seed, secs, kinds)
    rep.extra["search"] = tot
    if unreached:
        rep.log(f"out of reach: {unreached[:2]}")
        rep.bounded.append(dict(
            what="functional model, random sequences", why=unreached[:5], evaluations=tot["operations"],
            distinct_nontrivial=tot["runs"], samples=[str(tot)],
            rule="one evaluation is one operation of a random sequence compared with an independent reference; a run "
                 "is one sequence with its own memory image and address pool"))
    txt = [dict(obligation=r.label(), status=r.status, output=r.model) for r in failed[:10]]
    if hit:
        cfg, image, ops, f = hit
        p = rep.replay_file("input", dict(
            property=pid, config=vars(cfg), image=image, operations=ops, violated=f, failed_obligations=txt,
            how="cd /verif && /opt/venv/bin/python -W ignore -m vc.flsim <this file>"))
        rep.log("failing input:", f)
        rep.violation(p, True)
    elif failed:
        p = rep.replay_file("obligation", dict(property=pid, failed_obligations=txt, search=tot))
        rep.violation(p, False)


# --- SRAM ------------------------------------------------------------------

SRQ = [(512, 4), (32, 256), (128, 256), (8, 2), (1, 4), (25, 128), (128, 16), (256, 64), (64, 1024), (33, 8)]
SRT = SRQ + [(512, 64), (32, 2048), (24, 32), (128, 4096), (2, 64), (160, 8), (16, 16), (22, 8192)]


def sram_make(w, n):
    from sram.SramPRTL import SramPRTL
    m = SramPRTL(w, n)
    m.elaborate()
    return m


def sram_sim(w, n, seed, secs, ops=None):
    """the real SRAM simulated against an array; -> (None | (ops, text), cycles)"""
    import random
    from pymtl3 import DefaultPassGroup
    r = random.Random(seed)
    end = time.time() + secs
    cycles = 0
    while True:
        m = sram_make(w, n)
        m.apply(DefaultPassGroup())
        m.sim_reset()
        mem, out, known = {}, None, set()
        log = []
        idxs = [r.randrange(n) for _ in range(r.choice([1, 2, 4]))] + [0, n - 1]
        todo = list(ops) if ops is not None else None
        for _ in range(len(ops) if ops is not None else 200):
            if todo is not None:
                val, typ, i, d, b = todo.pop(0)
            else:
                val, typ = int(r.random() < .8), r.getrandbits(1)
                i = r.choice(idxs) if r.random() < .8 else r.randrange(n)
                d = r.choice([0, (1 << w) - 1, r.getrandbits(w)])
                b = r.choice([0, (1 << w) - 1, r.getrandbits(w), 1 << r.randrange(w)])
            log.append((val, typ, i, d, b))
            m.port0_val @= val
            m.port0_type @= typ
            m.port0_idx @= i
            m.port0_wdata @= d
            m.port0_wben @= b
            m.sim_eval_combinational()
            if out is not None and int(m.port0_rdata) != out:
                return (log, f"read data {int(m.port0_rdata):#x}, expected {out:#x}"), cycles
            m.sim_tick()
            cycles += 1
            if val and typ:
                mem[i] = mem.get(i, 0) & ~b | d & b
            elif val:
                out = mem.get(i, 0)
        if ops is not None or time.time() > end:
            return None, cycles


def sram(rep, pid):
    from . import contracts
    from .prove import solve
    thorough = rep.tier == "thorough"
    cfgs = SRT if thorough else SRQ
    rep.trusted = ["vc/sym.py, vc/design.py: extraction of the update blocks into bit-vector terms",
                   "z3 (QF_BV)", "PyMTL3 3.1.17: elaboration and scheduling semantics"]
    rep.assumptions = ["the index is below the number of words, a power of two",
                       "two-valued cycle semantics of PyMTL3"]
    rep.functions |= {"sram/SramPRTL.py: inverters", "sram/SramGenericPRTL.py: read_logic, write_logic, comb_logic, update_sram"}

    def job(c):
        def go():
            t = time.time()
            try:
                _, g = contracts.sram_goals(sram_make(*c), True)
            except Exception as e:      # noqa: BLE001
                return [(f"SramPRTL{c}", "unreached", f"{type(e).__name__}: {e}", time.time() - t)]
            return [(f"SramPRTL{c}: {n}",) + solve([], x, 200) for n, x in g.items()]
        return Job(f"SramPRTL{c}", "contract", str(c), [], go)
    rs = run([job(c) for c in cfgs], time.time() + (1500 if thorough else 300))
    un = [r for r in rs if r.status in ("unreached", "error")]
    keep = [r for r in rs if r not in un]
    rep.results += keep
    failed = [r for r in keep if not r.ok]
    for r in failed[:6]:
        rep.log("failed:", r.name, r.status)
    if not failed and not un:
        return
    hit, cyc, runs = None, 0, 0
    first = [c for c in cfgs if any(r.cfg == f"SramPRTL{c}" for r in failed)]
    todo = first[:3] + [c for c in [(8, 2), (32, 16), (33, 8), (128, 256), (1, 4), (64, 1024), (25, 128)] if c not in first]
    for k, c in enumerate(todo):
        try:
            h, n = sram_sim(*c, rep.seed + k, 60 if thorough else 12)
        except Exception as e:          # noqa: BLE001
            h, n = ([], f"exception {type(e).__name__}: {e}"), 0
        cyc, runs = cyc + n, runs + n // 200
        if h:
            hit = (c,) + h
            break
    if un:
        rep.log(f"out of reach: {un[0].model}")
        rep.bounded.append(dict(what="SramPRTL random simulation", why=[str(un[0].model)], evaluations=cyc,
                                distinct_nontrivial=runs, samples=[f"{cyc} cycles"],
                                rule="one evaluation is one simulated cycle compared with an array; a run is 200 cycles"))
    txt = [dict(obligation=r.name, status=r.status, output=r.model) for r in failed[:10]]
    if hit:
        c, ops, text = hit
        rep.log("failing input:", c, text)
        rep.violation(rep.replay_file("input", dict(
            property=pid, num_bits=c[0], num_words=c[1], cycles=[[hex(x) for x in o] for o in ops], violated=text,
            columns="val type idx wdata wben", failed_obligations=txt)), True)
    elif failed:
        rep.violation(rep.replay_file("obligation", dict(property=pid, failed_obligations=txt)), False)


def library(rep, pid):
    """P18: the component library"""
    from . import units
    from .prove import solve
    thorough = rep.tier == "thorough"
    us = units.units(thorough)
    rep.trusted = ["vc/sym.py, vc/design.py: extraction of the update blocks into bit-vector terms",
                   "z3 (QF_BV)", "PyMTL3 3.1.17: elaboration and scheduling semantics"]
    rep.assumptions = ["sub-word accesses have a power-of-two length; those that enable or mark bytes are aligned",
                       "a tag is in at most one way of a set", "MSHR: one entry, allocated when empty, freed when full",
                       "two-valued cycle semantics of PyMTL3"]
    rep.functions |= {f"blocking_cache/units: {u[0].split('(')[0]}" for u in us}

    def job(i):
        def go():
            u = us[i]
            t = time.time()
            try:
                d, h, g, ob = units.goals(u)
            except Exception as e:      # noqa: BLE001
                return [(f"{u[0]}, {u[3]}", "unreached", f"{type(e).__name__}: {e}", time.time() - t)]
            out = []
            for n, x in list(g.items()) + [(f"no exception: {t} #{k}", x) for k, (x, t) in enumerate(ob)]:
                st, m, dt = solve(h, x, 60)
                text = None
                if st == "failed":
                    text = {k: hex(v) for k, v in m.items() if v}
                    try:
                        r = units.replay(u, d, m)
                    except Exception as e:      # noqa: BLE001
                        r = ([f"exception {type(e).__name__}: {e}"], {}, {}) if n.startswith("no exception") else None
                    if r and r[0]:
                        text = dict(input=text, replayed=r[0], ports={k: hex(v.p) for k, v in r[1].items()},
                                    next_cycle={k: hex(v.p) for k, v in r[2].items()})
                out.append((f"{u[0]}, {u[3]}: {n}", st, text, dt))
            return out
        return Job(us[i][0], "contract", str(us[i][3]), [], go)
    rs = run([job(i) for i in range(len(us))], time.time() + (900 if thorough else 300))
    un = [r for r in rs if r.status in ("unreached", "error")]
    rep.results += [r for r in rs if r not in un]
    failed = [r for r in rs if r not in un and not r.ok]
    for r in failed[:6]:
        rep.log("failed:", r.name, r.status)
    txt = [dict(obligation=r.name, status=r.status, output=r.model) for r in failed[:10]]
    hits = [r for r in failed if isinstance(r.model, dict) and "replayed" in r.model]
    if hits:
        r = hits[0]
        rep.log("replayed on the real component:", r.name)
        rep.violation(rep.replay_file("input", dict(property=pid, component=r.name, **r.model,
                                                    failed_obligations=txt)), True)
        return
    # what the prover could not reach or decide, on the real simulation
    names = {r.name.split(":")[0] for r in un + failed}
    todo = [u for u in us if f"{u[0]}, {u[3]}" in names]
    n = 0
    for k, u in enumerate(todo):
        try:
            hit, c = units.simulate(u, rep.seed + k, (120 if thorough else 40) / len(todo))
        except Exception as e:      # noqa: BLE001
            rep.log(f"{u[0]}, {u[3]}: cannot be driven: {type(e).__name__}: {e}")
            continue
        n += c
        if hit:
            rep.log("failing input:", u[0], u[3], hit[0])
            rep.violation(rep.replay_file("input", dict(
                property=pid, component=f"{u[0]}, {u[3]}", violated=hit[0], cycle=hit[1], next_cycle=hit[2],
                failed_obligations=txt)), True)
            return
    if un:
        rep.log(f"out of reach: {un[0].name}: {un[0].model}")
        rep.bounded.append(dict(what="random simulation of the real component", why=[str(r.model) for r in un[:3]],
                                evaluations=n, distinct_nontrivial=len(todo), samples=[f"{n} cycles"],
                                rule="one evaluation is one simulated cycle judged by the contract"))
    if failed:
        rep.violation(rep.replay_file("obligation", dict(property=pid, failed_obligations=txt)), False)


def check(rep, pid):
    if pid in ("P13", "P14"):
        return fl(rep, pid)
    if pid == "P18":
        return library(rep, pid)
    if pid == "P15":
        return sram(rep, pid)
    if pid == "P19":
        from . import vprops
        return vprops.check(rep, pid)
    if pid == "P20":
        from . import msgprops
        return msgprops.check(rep, pid)
    raise SystemExit(f"unknown property {pid}")
