"""Obligations over one clock cycle, discharged by z3.

  init:   ghost-init /\\ reset cycle              =>  Inv_i(next)
  step:   Inv /\\ env /\\ reset = 0               =>  Inv_i(next)   (each i)
  check:  Inv /\\ env /\\ reset = 0               =>  check_k       (each k)
"""
import multiprocessing as mp
import time

from . import env  # noqa: F401
from . import term as tm


def solve(hyps, goal, timeout, opts=None):
    """('proved'|'failed'|'unknown', model, seconds) for  /\\hyps => goal."""
    import z3
    t0 = time.time()
    if goal is tm.TRUE:
        return "proved", None, 0.0
    r, decls = tm.to_z3(list(hyps) + [tm.not_(goal)])
    s = z3.SolverFor("QF_BV") if not opts else z3.Tactic(opts).solver()
    s.set("timeout", int(timeout * 1000))
    for x in r:
        s.add(x)
    q = s.check()
    dt = time.time() - t0
    if q == z3.unsat:
        return "proved", None, dt
    if q == z3.unknown:
        return "unknown", None, dt
    m = s.model()
    out = {}
    for p, (v, w) in decls.items():
        x = m.eval(v, model_completion=True)
        out[str(p)] = (1 if z3.is_true(x) else 0) if w == 1 else x.as_long()
    return "failed", out, dt


_JOBS = None


def _run(k):
    kind, name, hyps, goal, timeout = _JOBS[k]
    try:
        return (k,) + solve(hyps, goal, timeout)
    except Exception as e:          # noqa: BLE001
        return k, "error", repr(e), 0.0


def run_jobs(jobs, procs=8):
    """jobs: list of (kind, name, hyps, goal, timeout) -> list of results in
    job order."""
    global _JOBS
    _JOBS = jobs
    if not jobs:
        return []
    res = [None] * len(jobs)
    ctx = mp.get_context("fork")
    with ctx.Pool(min(procs, len(jobs))) as pool:
        for r in pool.imap_unordered(_run, range(len(jobs)), chunksize=1):
            res[r[0]] = r[1:]
    return res


class Prover:
    def __init__(self, c, inv):
        self.c, self.inv = c, inv
        self.nx = {p: c.nxt[p] for p in c.state}
        self.reset = c.p["reset"]
        cache = {}
        self.inext = {k: tm.subst(t, self.nx, cache) for k, t in inv.items()}
        self.noreset = tm.not_(self.reset)

    def hyps(self, names=None):
        return [self.inv[k] for k in (names or self.inv)] + list(self.c.env.values()) + [self.noreset]

    def init_jobs(self, names, timeout=60):
        """after a reset cycle with the ghost reset too"""
        c = self.c
        m = dict(self.nx)
        for p in c.state:
            if isinstance(p, tuple) and p[0] == "ghost":
                m[p] = c.state[p]
        cache = {}
        rs = {self.reset.p: tm.TRUE}
        jobs = []
        for k in names:
            g = tm.subst(tm.subst(self.inv[k], m, cache), rs)
            jobs.append(("init", k, list(c.init_ghost), g, timeout))
        return jobs

    def step_jobs(self, names, hyp_names=None, timeout=60):
        h = self.hyps(hyp_names)
        return [("step", k, h, self.inext[k], timeout) for k in names]

    def check_jobs(self, names, hyp_names=None, timeout=60):
        h = self.hyps(hyp_names)
        goal = {**self.c.checks, **self.c.live}
        return [("check", k, h, goal[k], timeout) for k in names]


def houdini(p, names, timeout=60, procs=8, log=None):
    """Largest subset of the candidate conjuncts that is inductive."""
    names = list(names)
    ij = p.init_jobs(names, timeout)
    lost = {}
    stats = []
    res = run_jobs(ij, procs)
    for j, r in zip(ij, res):
        stats.append((j[0], j[1], r[0], r[2]))
        if r[0] != "proved":
            lost[j[1]] = ("init",) + tuple(r)
    names = [k for k in names if k not in lost]
    while True:
        jobs = p.step_jobs(names, names, timeout)
        res = run_jobs(jobs, procs)
        bad = []
        for j, r in zip(jobs, res):
            stats.append((j[0], j[1], r[0], r[2]))
            if r[0] != "proved":
                bad.append(j[1])
                lost[j[1]] = ("step",) + tuple(r)
        if log:
            log(f"houdini round: {len(names)} candidates, {len(bad)} dropped: {bad}")
        names = [k for k in names if k not in bad]
        if not bad:
            return names, lost, stats
