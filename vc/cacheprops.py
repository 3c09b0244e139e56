"""Properties decided by the inductive proof of the whole cache."""
import atexit
import os
import random
import time

from . import env  # noqa: F401
from . import term as tm
from . import coherence
from .cache import Cache, Config
from .runner import Job, Result, run

QUICK = [Config(4096, 2), Config(4096, 1), Config(4096, 2, 128, 64), Config(4096, 1, 128, 128),
         Config(2048, 2, 256, 32), Config(2048, 1, 64, 32), Config(64, 2), Config(4096, 2, 256, 128),
         Config(4096, 1, 256, 64), Config(2048, 2, 128, 128), Config(1024, 2, 128, 32, 24, 4),
         Config(32768, 2), Config(512, 2, 64, 64, 16, 1), Config(1024, 2, 512, 64, 48, 12)]
THOROUGH = QUICK + [
    Config(32, 1), Config(64, 1, 128, 64), Config(64, 2, 128, 128), Config(128, 2),
    Config(16384, 2), Config(65536, 2), Config(65536, 1), Config(4096, 1, 128, 64), Config(4096, 2, 128, 128),
    Config(4096, 2, 256, 64), Config(4096, 1, 256, 128), Config(8192, 1, 512, 32), Config(8192, 2, 512, 64),
    Config(2048, 2, 64, 64), Config(4096, 2, 128, 32, 64), Config(4096, 1, 128, 64, 64),
    Config(4096, 2, 128, 32, 32, 4), Config(1024, 2, 128, 32, 24), Config(4096, 1, 128, 32, 32, 16),
    Config(32, 2, 64, 32), Config(16, 1, 64, 32), Config(4096, 2, 512, 128, 48, 12)]

PROPS = {
    "P01": dict(checks=["read_data", "read_zero_extend"]),
    "P02": dict(checks=["resp_pending", "resp_type", "resp_opaque", "resp_len", "resp_no_data", "accept_room"]),
    "P03": dict(checks=["wb_only_dirty", "wb_data", "wb_nonempty_mask"]),
    "P04": dict(checks=["flush_clean", "no_pending_memory_at_flush"]),
    "P05": dict(checks=["gone_line_refetched", "inv_silent", "read_data", "wb_data"]),
    "P06": dict(checks=["amo_is_for_request", "amo_operand", "amo_after_writeback", "amo_evicts_own_line",
                        "amo_result", "amo_zero_extend", "amo_forwarded", "answer_after_memory",
                        "gone_line_refetched"]),
    "P07": dict(checks=["mreq_en_only_if_rdy", "resp_en_only_if_rdy", "mresp_always_taken",
                        "at_most_two_outstanding", "mreq_kind", "mreq_line_shape", "creq_rdy_before_en", "mresp_rdy_before_en"]),
    "P08": dict(checks=["test_bit", "read_is_for_request", "one_writeback", "hit_no_writeback", "evict_own_set",
                        "write_is_for_miss_or_flush"]),
    "P09": dict(checks=["lru_hit", "lru_no_refetch"]),
    "P10": dict(checks=["rank_never_grows", "rank_falls", "idle_ready"], watchdog=True),
    "P11": dict(checks=["gone_line_refetched", "resp_pending"], init=True),
    "P12": dict(checks=[], wellformed=True, grid=True),
    "P16": dict(checks=["hit_latency", "read_hit_never_blocks", "write_hit_blocks_once", "request_to_memory_latency",
                        "writeback_latency", "miss_latency", "amo_latency", "inv_latency", "flush_latency",
                        "init_latency"], timing=True),
    "P17": dict(checks=coherence.USED, lemma=True),
}

ENV_ASSUMPTIONS = [
    "the client raises en only when rdy is high and sends READ/WRITE with a power-of-two length not above the data "
    "width, aligned to its size (and the documented double-word WRITE of 32-bit caches), word AMOs, INV, FLUSH",
    "WRITE_INIT requests are outside the proof (the README reserves them for testing)",
    "memory answers every request it accepted in order, at any time, with the type of the request; READ returns what "
    "memory holds when it answers; an AMO returns the old word",
    "another agent may change memory at any time; a location it changes is unconstrained for READs until the next "
    "INV, AMO or WRITE of it (the README's software-coherence contract)",
    "clock-synchronous two-valued semantics of PyMTL3 update blocks; the simulator itself is trusted, the "
    "translation from source to terms is cross-checked against it on every run",
]
TRUSTED = [
    "vc/sym.py, vc/design.py: mechanical extraction of /repo's update blocks into bit-vector terms (cross-checked "
    "against the PyMTL3 simulation of the same source on random states in every run)",
    "z3 (QF_BV)", "PyMTL3 3.1.17: elaboration, connection and scheduling semantics",
    "vc/cache.py: the specification itself (ghost state, environment contract, checks)",
]


class OutOfReach(Exception):
    pass


def build(cfg, timing=False):
    """-> (Cache, Prover)"""
    from .inv import invariants
    from .prove import Prover
    c = Cache(cfg, timing)
    return c, Prover(c, invariants(c))


def cosim_job(cfg, seed, cycles):
    def go():
        from . import cosim
        t = time.time()
        try:
            n = cosim.run(cfg.make, None, cycles, seed)
            return [("extraction agrees with the PyMTL3 simulation", "proved", n, time.time() - t)]
        except cosim.CosimMismatch as e:
            return [("extraction agrees with the PyMTL3 simulation", "failed", str(e), time.time() - t)]
    return go


def contract_job(c, u, rep):
    def go():
        from .contracts import sram_goals, repl_goals, comp_args
        from .prove import solve
        d, g = (repl_goals if rep else sram_goals)(u.c)
        out = []
        for n, t in g.items():
            out.append((f"{type(u.c).__name__}({comp_args(u.c)}): {n}",) + solve([], t, 60))
        return out
    return go


def contract_jobs(c, seen):
    jobs = []
    for u in c.tag_cut + [c.data_cut, c.rep_cut]:
        comp = u.c
        key = (type(comp), repr(comp._dsl.args), repr(sorted(comp._dsl.kwargs)))
        if key in seen:
            continue
        seen.add(key)
        jobs.append(Job(c.cfg, "contract", f"{type(comp).__name__} contract", [], contract_job(c, u, u is c.rep_cut)))
    return jobs


def lemma_jobs(cfgs):
    """caches sharing a memory, from the contract of a single cache"""
    js, seen = [], set()
    for cfg in cfgs:
        key = (cfg.line, cfg.data, cfg.addr, cfg.opq)
        if key in seen:
            continue
        seen.add(key)
        for n in (2,) if len(seen) > 1 else (2, 3):
            w = coherence.World(cfg, n)
            js += [Job(cfg, "lemma", f"{n} caches: {b}", h, g) for _, b, h, g in w.jobs()]
    return js


def grid_sweep(rep):
    """P12: the whole grid of configurations elaborates and runs -> violated?"""
    from . import grid
    rs = grid.sweep(rep.tier == "thorough", rep.seed)
    bad = [r for r in rs if r[1]]
    rep.bounded.append(dict(
        what="elaboration, scheduling and a short random simulation of a grid of configurations",
        why=["elaboration is a Python program run once per configuration; its parameters are enumerated"],
        evaluations=len(rs), distinct_nontrivial=len({str(r[0]) for r in rs}),
        rule="one evaluation is one configuration built, scheduled and driven with legal random requests; "
             "configurations differ in size, associativity, line, data, address or opaque width",
        samples=[f"{r[0]}: {r[2]} cycles, {r[3]} requests" for r in rs[::12]]))
    if not bad:
        return False
    for r in bad[:5]:
        rep.log(f"{r[0]}: {r[1]}")
    cfg, err, _, _, seed = bad[0]
    f = rep.replay_file("config", dict(
        property=rep.pid, config=vars(cfg), seed=seed, runs=6 if rep.tier == "thorough" else 1, error=err,
        all_errors=[f"{r[0]}: {r[1]}" for r in bad],
        how="cd /verif && /opt/venv/bin/python -W ignore -m vc.grid <this file>"))
    rep.violation(f, True)
    return True


def goals(c, names):
    """the property's own obligations"""
    g = {**c.checks, **c.live}
    return [n for n in names if n in g]


def shrink(cfg):
    """the smallest cache with the same widths, for searching"""
    return Config(cfg.line // 8 * cfg.assoc * 2, cfg.assoc, cfg.line, cfg.data, cfg.addr, cfg.opq)


def functions(rep, d):
    for n in d.block_names:
        rep.functions.add(n)


def check(rep, spec):
    rep.trusted, rep.assumptions = list(TRUSTED), list(ENV_ASSUMPTIONS)
    cfgs = THOROUGH if rep.tier == "thorough" else QUICK
    if spec.get("grid") and grid_sweep(rep):
        return
    t0 = time.time()
    thorough = rep.tier == "thorough"
    # a slow machine gets the time it needs; what is left of the total goes to explaining failures
    t_obl, total = (1500, 6000) if thorough else (420, 780)

    def left(want, floor):
        return max(floor, min(want, t0 + total - time.time()))
    names = spec["checks"]
    built, jobs, seen, unreached = {}, [], set(), []
    small = Config(64, 2)
    jobs.append(Job(small, "cosim", "extraction", [], cosim_job(small, rep.seed, 150 if rep.tier == "thorough" else 50)))
    for cfg in cfgs:
        try:
            c, p = build(cfg, spec.get("timing", False))
        except Exception as e:      # noqa: BLE001
            rep.log(f"{cfg}: out of reach: {type(e).__name__}: {str(e)[:200]}")
            unreached.append((cfg, f"{type(e).__name__}: {str(e)[:200]}"))
            continue
        built[cfg] = (c, p)
        functions(rep, c.d)
        jobs += contract_jobs(c, seen)
        jobs += prop_jobs(c, p, spec, list(p.inv))
    covers = cover_jobs(*next(iter(built.items()))) if built else []
    if spec.get("lemma"):
        jobs += lemma_jobs(cfgs)
        covers += coherence.cover_jobs(cfgs[0])
    rs = run(jobs + covers, time.time() + t_obl)
    rep.extra["configurations_proved"] = [str(x) for x in built]
    cov = [r for r in rs if r.kind == "cover"]
    rs = [r for r in rs if r.kind != "cover"]
    if cov:
        rep.extra["covers"] = {r.name: "reachable in the contract" if r.status == "failed" else r.status for r in cov}
    cos = [r for r in rs if r.kind == "cosim"]
    rs = [r for r in rs if r.kind != "cosim"]
    rep.extra["extraction_crosscheck"] = [dict(what=str(r.cfg), status=r.status, cycles_and_values=str(r.model)) for r in cos]
    rep.results += rs
    bad_cos = [r for r in cos if r.status == "failed"]
    for r in cos:
        if not r.ok:
            rep.log(f"extraction cross-check: {r.status}: {str(r.model)[:300]}")
    if bad_cos:
        unreached = [(c, f"extraction disagrees with the simulation: {bad_cos[0].model}") for c in cfgs]
        rep.results = []
        return bounded(rep, spec, names, unreached)
    failed = [r for r in rs if not r.ok]
    contract_failed = [r for r in failed if r.kind == "contract"]
    for r in contract_failed:
        rep.log("failed:", r.label(), r.status, str(r.model)[:200] if r.status == "error" else "")
    by_cfg = {}
    for r in failed:
        if r.kind != "contract":
            by_cfg.setdefault(r.cfg, []).append(r)
    for cfg, mine in by_cfg.items():
        rep.log(f"{cfg}: {len(mine)} obligations not discharged: {sorted({r.name for r in mine})[:12]}")
    hit = None
    if by_cfg and not contract_failed:
        # a failing input is quickly found for most defects
        hit = search(rep, spec, names, list(by_cfg), built, 120 if thorough else 30)
    open_ = []      # (cfg, [failed obligations of this property])
    if hit:
        open_ = [(cfg, mine) for cfg, mine in by_cfg.items()]
    else:
        end = time.time() + left(1500 if thorough else 270, 60)
        for cfg in sorted(by_cfg, key=lambda x: (len(by_cfg[x]), list(built).index(x))):
            rest = strengthen(rep, cfg, *built[cfg], spec, by_cfg[cfg], end)
            if rest:
                open_.append((cfg, rest))
                break
    if not open_ and not contract_failed:
        if unreached:
            bounded(rep, spec, names, unreached)
        return
    if hit is None and built and not contract_failed:
        hit = search(rep, spec, names, [x for x, _ in open_] + list(by_cfg), built, left(600 if thorough else 90, 20))
    if hit is None:
        # memory contracts failed, or the fast search missed: the real simulation
        cs = [shrink(x) for x, _ in open_] or [shrink(x) for x in cfgs[:3]]
        hit = real(rep, spec, names, cs, left(100 if not contract_failed else 200, 30), note=False)
    first = open_[0][1] if open_ else contract_failed
    txt = [dict(obligation=r.label(), status=r.status, output=model_text(built, r)) for r in first[:10]]
    if hit:
        cfg, found, A, trace, illegal = hit
        f = rep.replay_file("input", dict(
            property=rep.pid, config=vars(cfg), A=hex(A), violated=[list(x) for x in found[:10]],
            failed_obligations=txt, how="cd /verif && /opt/venv/bin/python -W ignore -m vc.replay <this file>",
            trace=[[hex(x) for x in r] for r in trace]))
        rep.log("replayed on the real simulation:", found[0])
        rep.violation(f, True)
    else:
        f = rep.replay_file("obligation", dict(property=rep.pid, failed_obligations=txt,
                                               note="no failing input found; verifier output above"))
        rep.violation(f, False)


def prop_jobs(c, p, spec, inv_names, timeout=60):
    js = []
    for k, n, h, g, t in p.init_jobs(inv_names, timeout) + p.step_jobs(inv_names, inv_names, timeout) + \
            p.check_jobs(goals(c, spec["checks"]), inv_names, timeout):
        js.append(Job(c.cfg, k, n, h, g, t))
    js += wf_jobs(c, p, inv_names, timeout)
    return js


def wf_jobs(c, p, inv_names, timeout=60):
    """nothing raises: needed by every property"""
    h = p.hyps(inv_names)
    js = []
    for i, (o, text) in enumerate(c.d.obligations()):
        if o is not tm.TRUE:
            js.append(Job(c.cfg, "no-exception", f"{text} #{i}", h, o, timeout))
    return js


def strengthen(rep, cfg, c, p, spec, failed, limit):
    """Drop what no longer holds, prove the property from what is left.
    -> obligations of the property still open."""
    names = list(p.inv)
    end = min(limit, time.time() + (600 if rep.tier == "thorough" else 150))
    bad = {r.name for r in failed if r.kind in ("init", "step")}
    kinds = {r.kind for r in failed}
    rounds = 0
    acc = []
    if not bad:
        return failed
    init_bad = {r.name for r in failed if r.kind == "init"}
    while bad and time.time() < end:
        names = [n for n in names if n not in bad]
        rounds += 1
        if not names:
            break
        rs = run([Job(cfg, k, n, h, g, t) for k, n, h, g, t in p.step_jobs(names, names, 20)], end)
        acc = rs
        bad = {r.name for r in rs if not r.ok}
    if bad:
        rep.log(f"{cfg}: no inductive subset within the time limit")
        return failed
    js = [Job(cfg, k, n, h, g, t) for k, n, h, g, t in p.check_jobs(goals(c, spec["checks"]), names, 60)]
    js += wf_jobs(c, p, names, 60)
    rs = run(js, end + 60)
    left = [r for r in rs if not r.ok]
    rep.log(f"{cfg}: {len(names)} of {len(p.inv)} invariants are inductive after {rounds} rounds; "
            f"{len(left)} obligations of the property open: {[r.name for r in left]}")
    if spec.get("init") and init_bad:
        left = left or [r for r in failed if r.kind == "init"]
    if not left:
        # replace what failed by the proof from the smaller invariant
        keep = {id(r) for r in failed}
        rep.results = [r for r in rep.results if r.cfg is not cfg or r.kind in ("contract", "lemma")] + \
            [r for r in rep.results if r.cfg is cfg and r.kind == "init" and r.name in names] + acc + rs
        rep.notes.append(f"{cfg}: proved from {len(names)} of {len(p.inv)} candidate invariants")
        return []
    return left + [r for r in failed if r.kind in ("init", "step")][:5]


def cover_jobs(cfg, cp):
    """the contract is not vacuous: each event is possible in some state that
    satisfies every invariant"""
    c, p = cp
    ev, P = c.ev, c.p
    cv = {}
    ty = lambda t, k: tm.eq(t, tm.const(k, 4))
    for k, n in ((0, "READ"), (1, "WRITE"), (3, "AMO"), (14, "INV"), (15, "FLUSH")):
        cv[f"{n} accepted"] = tm.andl(ev["acc"], ty(P["creq_type_"], k))
        cv[f"{n} answered"] = tm.andl(ev["pop"], ty(c.e[0]["type"], k))
    for k, n in ((0, "READ"), (1, "WRITE"), (3, "AMO")):
        cv[f"{n} sent to memory"] = tm.andl(ev["send"], ty(P["mreq_type_"], k))
    cv["memory answer taken"] = ev["recv"]
    cv["hit answered"] = tm.andl(ev["pop"], tm.eq(P["cresp_test"], tm.const(1, 2)))
    h = p.hyps(list(p.inv))
    return [Job(cfg, "cover", n, h, tm.not_(t), 30) for n, t in cv.items()]


def model_text(built, r):
    if isinstance(r.model, dict):
        if r.cfg in built:
            c = built[r.cfg][0]
            keep = {str(k) for k in list(c.state) + list(c.inputs)}
            return {k: hex(v) for k, v in r.model.items() if k in keep and v}
        return {k: hex(v) for k, v in r.model.items() if v}
    return r.model


def watch_names(spec):
    n = set(spec["checks"])
    if spec.get("watchdog"):
        n.add("watchdog")
    if spec.get("wellformed"):
        n.add("exception")
    if spec.get("init"):
        n.add("reset_forgets")
    return n


_SEARCH = {}


def _search_for(x, built, timing=False):
    from .csim import Search, constants
    if str(x) not in _SEARCH:
        try:
            c = built[x][0] if x in built else Cache(x, timing)
            K = constants([c.nxt[k] for k in c.state] + list(c.p.values()))
            _SEARCH[str(x)] = Search(c, pool=K)
            atexit.register(_SEARCH[str(x)].close)
        except Exception as e:      # noqa: BLE001
            _SEARCH[str(x)] = e
    return _SEARCH[str(x)]


def search(rep, spec, names, cfgs, built, secs):
    """compiled random search; a hit counts once the real simulation shows it"""
    todo = {}
    for x in cfgs:
        todo.setdefault((x.assoc, x.line, x.data), x)
    todo = list(todo.values())[:3]
    ss = []
    for x in [shrink(x) for x in todo] + todo[:1]:
        s = _search_for(x, built, spec.get("timing", False))
        if isinstance(s, Exception):
            rep.log(f"search {x}: {type(s).__name__} {str(s)[:200]}")
        elif all(str(x) != str(y) for y, _ in ss):
            ss.append((x, s))
    if not ss:
        return None
    end = time.time() + secs
    resets = bool(spec.get("init"))     # P11: anything that goes wrong after a reset and not in a new cache
    mask = [n for n in names] + (["w"] if spec.get("watchdog") else [])
    tot = dict(cycles=0, requests=0, runs=0)
    wanted = watch_names(spec)
    if True:
        seed = rep.seed * 7919 + int(secs)
        while time.time() < end:
            left = min(20, end - time.time())
            ps = []
            for j in range(8):
                x, s = ss[j % len(ss)]
                seed += 1
                ps.append((x, s, s.start(seed, left, s.names + ["w"] if resets and seed % 2 else mask, resets)))
            for x, s, pr in ps:
                o = pr.communicate()[0]
                what, A, trace, st = s.parse(o)
                for k in tot:
                    tot[k] += st.get(k, 0)
                if what is None:
                    continue
                if what.startswith("exception") and "exception" not in wanted and not names:
                    continue
                found, ill = replay_one(x, A, trace, wanted)
                if found:
                    rep.extra["search"] = tot
                    for _, _, q in ps:
                        q.kill()
                    return x, found, A, trace, ill
                rep.log(f"search {x}: {what} not confirmed by the real simulation ({ill})")
    rep.extra["search"] = tot
    rep.log("search found nothing:", tot)
    return None


def replay_one(cfg, A, trace, wanted):
    from .replay import replay
    try:
        found, ill = replay(cfg, A, trace)
    except Exception as e:      # noqa: BLE001
        return [(0, "exception", f"{type(e).__name__}: {e}")] if "exception" in wanted else [], None
    return [f for f in found if f[1] in wanted or f[1] == "exception"], ill


def real(rep, spec, names, cfgs, secs, note=True):
    from . import realsim
    wanted = watch_names(spec)
    try:
        r = realsim.search(cfgs, rep.seed, secs, wanted | {"exception"})
    except Exception as e:      # noqa: BLE001
        rep.log(f"real simulation: {type(e).__name__}: {str(e)[:300]}")
        return None
    rep.extra["real_simulation"] = dict(runs=r["runs"], cycles=r["cycles"], requests=r["requests"])
    if r["hit"]:
        cfg, f, A, tr = r["hit"]
        return cfg, [f], A, tr, None
    return None


def bounded(rep, spec, names, unreached):
    """labelled bounded: the tree is outside the extractor's or the invariant's
    reach for these configurations"""
    secs = 600 if rep.tier == "thorough" else 100
    cfgs = [c for c, _ in unreached]
    hit, tot = None, {}
    if not any("disagrees" in w for _, w in unreached):
        try:
            hit = search(rep, spec, names, cfgs, {}, secs)
            tot = rep.extra.get("search", {})
        except Exception as e:      # noqa: BLE001
            rep.log(f"search: {type(e).__name__}: {str(e)[:200]}")
    if hit is None:
        hit = real(rep, spec, names, sorted({str(shrink(c)): shrink(c) for c in cfgs}.values(), key=str), secs)
    rs = rep.extra.get("real_simulation", {})
    rep.bounded.append(dict(
        what=[str(c) for c in cfgs], why=sorted({w for _, w in unreached})[:3],
        evaluations=tot.get("requests", 0) + rs.get("requests", 0),
        distinct_nontrivial=tot.get("runs", 0) + rs.get("runs", 0),
        rule="one evaluation is one request of a random legal stimulus judged by the scoreboard; a run is one "
             "stimulus from reset with its own address pool, request mix and ready pattern",
        samples=[str(tot), str(rs)]))
    if hit:
        cfg, found, A, trace, _ = hit
        f = rep.replay_file("input", dict(
            property=rep.pid, config=vars(cfg), A=hex(A), violated=[list(x) for x in found[:10]],
            trace=[[hex(x) for x in r] for r in trace]))
        rep.log("bounded search found:", found[0])
        rep.violation(f, True)
