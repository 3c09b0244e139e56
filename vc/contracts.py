"""The contracts the cache proof assumes of its memories (cuts.py), proved
against the bodies of the very classes and parameters the cache instantiates."""
from . import env  # noqa: F401
from . import term as tm
from .design import Design
from .sym import Unsupported
from pymtl3.dsl import Signal


def clone(comp):
    """The same class with the same parameters, elaborated on its own."""
    c = comp.__class__(*comp._dsl.args, **comp._dsl.kwargs)
    c.elaborate()
    return c


def lists_of(top, n):
    """full names of the signal lists with n elements"""
    r = []
    for c in sorted(top.get_all_components(), key=repr):
        for k, v in vars(c).items():
            if isinstance(v, list) and len(v) == n and v and all(isinstance(x, Signal) for x in v):
                r.append(repr(v[0]).rsplit("[", 1)[0])
    return r


def sram_goals(comp, hold=False):
    """name -> goal (valid for every input, every row k and every content).
    The contract is the one stated in cuts.Sram; hold adds what the SRAM's own
    property promises beyond it."""
    t = clone(comp)
    nw = 1 << t.port0_idx._dsl.Type.nbits
    w = t.port0_rdata._dsl.Type.nbits
    k = tm.var("k", t.port0_idx._dsl.Type.nbits)
    names = lists_of(t, nw)
    d = Design(t, watch={n: (k, nw) for n in names})
    stores = [x for x in d.arrays if ("arrc", x) not in d.summaries]
    nx = d.next_terms()
    stores = [x for x in stores if ("arr", x) in nx]
    if len(stores) != 1:
        raise Unsupported(f"{type(t).__name__}: storage arrays {stores}")
    row = tm.var(("arr", stores[0]), w)
    v = lambda p: d.value(getattr(t, p))
    val, typ, idx, wd, wb, out = (v("port0_" + x) for x in ("val", "type", "idx", "wdata", "wben", "rdata"))
    sub = {d.regs[q].p: nx[q] for q in d.regs}
    out1 = tm.subst(out, sub, {})
    hit = tm.eq(idx, k)
    row1 = nx[("arr", stores[0])]
    g = {}
    name = "write changes exactly the enabled bits of the addressed row"
    want = tm.ite(tm.andl(val, typ, hit), tm.or_(tm.and_(row, tm.not_(wb)), tm.and_(wd, wb)), row)
    if w <= 192:
        g[name] = tm.eq(row1, want)
    else:
        for lo in range(0, w, 64):
            hi = min(w, lo + 64)
            g[f"{name} (bits {lo}-{hi - 1})"] = tm.eq(tm.extract(row1, lo, hi), tm.extract(want, lo, hi))
    rd = tm.andl(val, tm.not_(typ))
    g["read data is the addressed row one cycle later"] = tm.implies(tm.andl(rd, hit), tm.eq(out1, row))
    if hold:
        g["read data is held without a read"] = tm.implies(tm.not_(rd), tm.eq(out1, out))
    ins = {x.p for x in d.inputs.values()}
    dep = {x.p for x in tm.topo([out]) if x.op == "v"}
    g["read data does not depend on this cycle's inputs"] = tm.bool_(
        not (dep & ins) and ("arr", stores[0]) not in dep)
    for i, (o, text) in enumerate(d.obligations()):
        if o is not tm.TRUE:
            g[f"no exception: {text} #{i}"] = o
    return d, g


def repl_goals(comp):
    t = clone(comp)
    d = Design(t)
    v = lambda p: d.value(getattr(t, p))
    raddr, waddr, wen, wdata, rdata, reset = (v(x) for x in ("raddr", "waddr", "wen", "wdata", "rdata", "reset"))
    k = tm.var("k", raddr.w)
    nx = d.next_terms()
    sub = {d.regs[q].p: nx[q] for q in d.regs}
    bit = tm.subst(rdata, {raddr.p: k}, {})
    bit1 = tm.subst(bit, sub, {})
    ins = {x.p for x in d.inputs.values()}
    dep = {x.p for x in tm.topo([bit]) if x.op == "v"} & ins
    g = {"read data is the addressed set's bit": tm.bool_(not dep),
         "a write sets exactly the addressed set's bit, reset clears every bit": tm.eq(
             bit1, tm.ite(reset, tm.FALSE, tm.ite(tm.andl(wen, tm.eq(waddr, k)), wdata, bit)))}
    for i, (o, text) in enumerate(d.obligations()):
        if o is not tm.TRUE:
            g[f"no exception: {text} #{i}"] = o
    return d, g


def cut_goals(c):
    """Goals for the contracts used by a Cache: (component, name, goal)"""
    out = []
    seen = set()
    for u in c.tag_cut + [c.data_cut, c.rep_cut]:
        comp = u.c
        key = (type(comp), repr(comp._dsl.args), repr(sorted(comp._dsl.kwargs)))
        if key in seen:
            continue
        seen.add(key)
        d, g = (repl_goals if u is c.rep_cut else sram_goals)(comp)
        for n, t in g.items():
            out.append((f"{type(comp).__name__}({comp_args(comp)})", n, t))
    return out


def comp_args(comp):
    return ", ".join(str(x) for x in comp._dsl.args)
