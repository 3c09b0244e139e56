"""Runs proof jobs on all cores with a deadline, and keeps the account that
goes into the evidence file."""
import multiprocessing as mp
import time

from .prove import solve

_JOBS = None


def _work(k):
    j = _JOBS[k]
    t0 = time.time()
    try:
        if callable(j.goal):
            return k, j.goal()
        return k, [(j.name,) + solve(j.hyps, j.goal, j.timeout)]
    except Exception as e:          # noqa: BLE001
        return k, [(j.name, "error", f"{type(e).__name__}: {e}", time.time() - t0)]


class Job:
    """one obligation (goal: term), or a batch (goal: function returning
    [(name, status, model, seconds)])"""

    def __init__(self, cfg, kind, name, hyps, goal, timeout=60):
        self.cfg, self.kind, self.name, self.hyps, self.goal = cfg, kind, name, hyps, goal
        self.timeout = timeout


class Result:
    def __init__(self, cfg, kind, name, status, model, secs):
        self.cfg, self.kind, self.name, self.status, self.model, self.secs = cfg, kind, name, status, model, secs

    @property
    def ok(self):
        return self.status == "proved"

    def label(self):
        return f"{self.cfg}: {self.kind} {self.name}"


def run(jobs, deadline, procs=8):
    """-> [Result]; what is not finished by the deadline is 'unknown'"""
    global _JOBS
    if not jobs:
        return []
    _JOBS = jobs
    # batches and slow kinds first
    order = sorted(range(len(jobs)), key=lambda k: (not callable(jobs[k].goal), k))
    out, todo = [], set(order)
    pool = mp.get_context("fork").Pool(min(procs, len(jobs)))
    try:
        it = pool.imap_unordered(_work, order, chunksize=1)
        while todo:
            try:
                k, rs = it.next(timeout=max(0.01, deadline - time.time()))
            except (mp.TimeoutError, StopIteration):
                break
            todo.discard(k)
            j = jobs[k]
            out += [Result(j.cfg, j.kind, n, s, m, t) for n, s, m, t in rs]
    finally:
        pool.terminate()
        pool.join()
    for k in todo:
        j = jobs[k]
        out.append(Result(j.cfg, j.kind, j.name, "unknown", "deadline", 0.0))
    return out
