"""P19: the SystemVerilog that translate.py writes, and the SRAM wrapper."""
import time

from . import env  # noqa: F401
from . import veq
from .cache import Config
from .cacheprops import QUICK, THOROUGH
from .runner import Job, run

REPLACE = [Config(4096, 2), Config(8192, 2), Config(4096, 1)]
REPLACE_T = REPLACE + [Config(2048, 2), Config(8192, 1), Config(8192, 2, 128, 64), Config(4096, 2, 128, 128),
                       Config(4096, 2, 256, 64), Config(8192, 2, 128, 32, 32, 4)]
SIZES = [(128, 256), (26, 128), (128, 512), (25, 256), (8, 2), (32, 16), (64, 64), (33, 8), (256, 32), (26, 256), (25, 128)]
SIZES_T = SIZES + [(128, 128), (512, 16), (1, 4), (16, 1024), (128, 1024), (27, 64), (512, 256)]


def check(rep, pid):
    thorough = rep.tier == "thorough"
    cfgs = THOROUGH if thorough else QUICK
    repl = REPLACE_T if thorough else REPLACE
    sizes = SIZES_T if thorough else SIZES
    rep.trusted = ["vc/sym.py, vc/design.py: extraction of the update blocks into bit-vector terms",
                   "vc/verilog.py: extraction of the Verilog text into bit-vector terms",
                   "z3 (QF_BV)", "PyMTL3 3.1.17: elaboration and scheduling semantics"]
    rep.assumptions = [
        "two-valued signals; registers and memories of both sides start with the same arbitrary contents",
        "a size cast is an assignment to that width (Verilator; IEEE 1800 self-determined operands differ)",
        "update blocks raise no exception (proved in P12)",
        "foundry macros sram_512x128 and sram_256x25 are not in the repository: assumed to behave like the "
        "models of sram_256x128 and sram_128x26 that are"]
    rep.functions |= {"blocking_cache/translate.py: main, replace_sram (run, their output is verified)",
                      "sram/brg_gf14_sram_generic_synopsys.v: SramGenericPRTL, gf14_sram_*, sram_256x128, sram_128x26",
                      "every update block and connection of BlockingCacheRTL, as Verilog"}
    jobs = [Job(f"{c} --replace-sram", "translation", "one step", [], veq.equal_job(c, True)) for c in repl]
    jobs += [Job(str(c), "translation", "one step", [], veq.equal_job(c)) for c in cfgs]
    jobs += [Job(f"wrapper {n}x{w}", "contract", f"SramGenericPRTL({w}, {n})", [], veq.wrapper_job(w, n)) for w, n in sizes]
    of = {**{f"{c} --replace-sram": (c, True) for c in repl}, **{str(c): (c, False) for c in cfgs},
          **{f"wrapper {n}x{w}": (w, n) for w, n in sizes}}
    rs = run(jobs, time.time() + (2400 if thorough else 240))
    un = [r for r in rs if r.status in ("unreached", "error")]
    rep.results += [r for r in rs if r not in un]
    failed = [r for r in rs if r not in un and not r.ok]
    for r in failed[:6]:
        rep.log("failed:", r.label(), r.status)
    if not failed and not un:
        return
    txt = [dict(obligation=r.label(), status=r.status, output=str(r.model)[:2000]) for r in failed[:10]]
    for r in failed:
        if r.name.startswith("translate.py writes"):
            c, replace = of[r.cfg]
            rep.log(str(r.model)[:300])
            cmd = ["translate.py"] + [x for o, a in veq.OPT for x in (o, str(getattr(c, a)))]
            rep.violation(rep.replay_file("input", dict(
                property=pid, command=" ".join(cmd + ["--replace-sram"] * replace), violated=str(r.model),
                failed_obligations=txt)), True)
            return
    end = time.time() + (400 if thorough else 150)
    todo = []
    for r in failed + un:
        if r.cfg in of and r.cfg not in todo:
            todo.append(r.cfg)
    cyc = runs = 0
    size = lambda k: (of[k][0].nbytes if isinstance(of[k][0], Config) else 0)
    kinds = sorted(todo, key=lambda k: ("unknown" in {r.status for r in failed if r.cfg == k}, size(k)))
    for k in kinds:
        if time.time() > end:
            break
        names = [r.name for r in failed if r.cfg == k]
        hit, n, m = search(rep, pid, k, of[k], end, names)
        runs, cyc = runs + n, cyc + m
        if hit:
            rep.log("failing input:", k, hit["violated"])
            rep.violation(rep.replay_file("input", dict(property=pid, case=k, **hit, failed_obligations=txt)), True)
            return
    if un:
        rep.log(f"out of reach: {un[0].cfg}: {un[0].model}")
        rep.bounded.append(dict(what="Verilator simulation of the generated text against the PyMTL3 simulation",
                                why=sorted({str(r.model) for r in un})[:3], evaluations=cyc, distinct_nontrivial=runs,
                                samples=[f"{cyc} cycles"],
                                rule="one evaluation is one cycle whose outputs are compared; a run is a random stimulus"))
    if failed:
        rep.violation(rep.replay_file("obligation", dict(property=pid, failed_obligations=txt)), False)


def search(rep, pid, key, what, end, names):
    from . import vsim
    secs = max(5, min(25, end - time.time()))

    def mem(text, mod, ports, params, w, n):
        h, runs, cyc = vsim.memory(text, mod, ports, params, w, n, rep.seed, min(8, secs))
        return (dict(violated=h[0], module=mod, parameters=params, cycles=h[1]) if h else None), runs, cyc
    try:
        if key.startswith("wrapper "):
            return mem(veq.with_macros(veq.wrapper()), "SramGenericPRTL", veq.MACROP,
                       [("num_bits", what[0]), ("num_words", what[1])], *what)
        c, replace = what
        name, text = veq.generate(c, replace)
        text = veq.with_macros(text)
        for m, (w, n) in sorted(veq.sram_modules(c, name, text).items()):
            if any(x.startswith(m + ":") for x in names):
                hit = mem(text, m, veq.PORT0, [], w, n)
                if hit[0]:
                    return hit
        h, runs, cyc = vsim.compare(c, name, text, rep.seed, secs)
        return (dict(violated=h[1], cycle=h[0], fields=list(vsim.FIELDS), rows=h[2],
                     replace_sram=replace) if h else None), runs, cyc
    except veq.NotGenerated as e:
        return dict(violated=str(e)), 0, 0
    except Exception as e:          # noqa: BLE001
        rep.log(f"{key}: cannot be simulated: {type(e).__name__}: {str(e)[-300:]}")
        return None, 0, 0
