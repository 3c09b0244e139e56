"""Evidence files, replay files, exit codes."""
import json
import os
import time

from . import env

EV = os.path.join(env.HERE, "evidence")


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.level = "proof"
        self.results = []           # runner.Result of every obligation
        self.extra = {}
        self.assumptions = []
        self.trusted = []
        self.functions = set()
        self.bounded = []           # (what, why, numbers): labelled bounded
        self.violations = []
        self.notes = []

    def log(self, *a):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    def replay_file(self, name, obj):
        d = os.path.join(EV, "replay")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, f"{self.pid}-{name}.json")
        with open(f, "w") as h:
            json.dump(obj, h, indent=1, default=str)
        return f

    def violation(self, path, found_input):
        self.violations.append(path)
        print(f"VIOLATION property={self.pid} replay={path}" +
              ("" if found_input else " no-failing-input-found"), flush=True)

    def finish(self):
        os.makedirs(EV, exist_ok=True)
        ok = [r for r in self.results if r.ok]
        backends = {}
        cov = {}
        if self.bounded and not ok:
            level = "exploration"
        else:
            level = self.level
        for r in self.results:
            b = backends.setdefault(r.kind, dict(obligations=0, discharged=0, solver_s=0.0))
            b["obligations"] += 1
            b["discharged"] += r.ok
            b["solver_s"] = round(b["solver_s"] + r.secs, 3)
        cov.update(obligations=len(self.results), discharged=len(ok),
                   checker_cmd=f"cd /verif && VERIF_TIER={self.tier} VERIF_SEED={self.seed} "
                               f"/opt/venv/bin/python -W ignore check.py {self.pid}",
                   trusted_base=self.trusted, by_kind=backends,
                   solver="z3 (python bindings, QF_BV)",
                   solver_s=round(sum(r.secs for r in self.results), 2),
                   functions_under_contract=sorted(self.functions),
                   undischarged=[dict(what=r.label(), status=r.status) for r in self.results if not r.ok][:50])
        if self.bounded:
            cov["bounded_stand_in"] = self.bounded
            cov["evaluations"] = sum(b.get("evaluations", 0) for b in self.bounded)
            cov["distinct_nontrivial"] = sum(b.get("distinct_nontrivial", 0) for b in self.bounded)
            cov["rule"] = "; ".join(sorted({b.get("rule", "") for b in self.bounded}))
            cov["samples"] = [s for b in self.bounded for s in b.get("samples", [])][:5]
        cov.update(self.extra)
        if self.notes:
            cov["notes"] = self.notes
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        with open(os.path.join(EV, f"{self.pid}.json"), "w") as h:
            json.dump(ev, h, indent=1, default=str)
        self.log(f"{len(ok)}/{len(self.results)} obligations discharged, {len(self.violations)} violations")
        return 1 if self.violations else 0
