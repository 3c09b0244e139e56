"""Cross-check of the extraction: the term semantics of a design against the
real PyMTL3 simulation of the same component on random states and inputs.
This is the guard for the one trusted translation step (source -> terms)."""
import random

from . import env  # noqa: F401
from . import term as tm
from .compile import compile_terms
from .sym import leafname
from pymtl3 import DefaultPassGroup
from pymtl3.datatypes import Bits


class CosimMismatch(Exception):
    pass


def walk(root, sig, path):
    """The live Bits object of a leaf in a simulated component."""
    name = repr(sig)
    o = root
    if name != "s":
        for part in name[2:].replace("[", ".[").split("."):
            o = o[int(part[1:-1])] if part.startswith("[") else getattr(o, part)
    for p in path:
        o = o[p] if isinstance(p, int) else getattr(o, p)
    return o


def set_leaf(root, sig, path, v):
    b = walk(root, sig, path)
    b @= v


def set_reg(root, sig, path, v):
    """also the shadow value, which survives a tick that does not assign"""
    b = walk(root, sig, path)
    b <<= v
    b._flip()


def run(make, design=None, cycles=60, seed=1, poke=True, bias=None):
    """make() builds an elaborated component; design is the Design extracted
    from another instance of it.  Returns (cycles, leaves compared)."""
    from .design import Design
    if design is None:
        design = Design(make())
    nxt = design.next_terms()
    outs = {}
    for sig in design.top.get_output_value_ports():
        r = design.sigref(sig)
        for s, p, lo, w in design.ref_leaves(r):
            outs[(s, p)] = design.value(s, p)
    regs = list(nxt)
    ins = []
    for sig in design.top.get_input_value_ports():
        if repr(sig) == "s.clk":
            continue
        for s, p, lo, w in design.ref_leaves(design.sigref(sig)):
            ins.append((s, p, design.placeholder(s, p, design.leaf_width(s, p))))
    varlist = [design.regs[k] for k in regs] + [v for _, _, v in ins]
    okeys = list(outs)
    f = compile_terms([nxt[k] for k in regs] + [outs[k] for k in okeys], varlist)
    m = make()
    m.apply(DefaultPassGroup())
    m.sim_reset()
    rnd = random.Random(seed)
    n = 0
    for c in range(cycles):
        iv = []
        for s, p, v in ins:
            x = rnd.getrandbits(v.w)
            if bias:
                x = bias(rnd, leafname(s, p), v.w, x)
            if repr(s) == "s.reset":
                x = int(rnd.random() < 0.05)
            set_leaf(m, s, p, x)
            iv.append(x)
        if poke and c % 2:
            for k in regs:
                w = design.leaf_width(*k)
                x = rnd.getrandbits(w)
                if bias:
                    x = bias(rnd, leafname(*k), w, x)
                set_reg(m, k[0], k[1], x)
        try:
            m.sim_eval_combinational()
        except Exception:
            if poke and c % 2:
                # a random state may be one in which the code raises
                for k in regs:
                    set_reg(m, k[0], k[1], 0)
                m.sim_eval_combinational()
            else:
                raise
        rv = [int(walk(m, *k)) for k in regs]
        res = f(rv + iv)
        for k, v in zip(okeys, res[len(regs):]):
            n += 1
            if int(walk(m, *k)) != v:
                raise CosimMismatch(f"cycle {c}: {leafname(*k)} real {walk(m, *k)} term {v:#x}")
        m.sim_tick()
        for k, v in zip(regs, res):
            n += 1
            if int(walk(m, *k)) != v:
                raise CosimMismatch(f"cycle {c}: next {leafname(*k)} real {walk(m, *k)} term {v:#x}")
    return cycles, n
