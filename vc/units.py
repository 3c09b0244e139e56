"""Contracts of the component library (blocking_cache/units): for every input
and every internal state, what each component documents.

A contract sees a component only at its ports: v(port) is the value in a cycle,
v1(port) in the next.  The same contract judges the symbolic component (terms)
and the real simulated one (constants), so a counterexample is replayed by
putting it into the simulation and evaluating the contract again."""
import time

from . import env  # noqa: F401
from . import term as tm
from .cache import AND, OR, NOT, EQ, IMP, ITE, C, V, EXT, log2
from .cosim import set_leaf, set_reg, walk
from .design import Design

NONE, REQ, DIRTY = 0, 1, 2                              # WriteBitEnGen
T_CLEAR, T_WHIT, T_WREFILL, T_RREFILL, T_INV = 1, 2, 3, 4, 5    # UpdateTagArrayUnit


class P:
    """line, data, addr, opq, bytes, assoc"""

    def __init__(self, line=128, data=32, nbytes=64, assoc=1, addr=32, opq=8):
        self.line, self.data, self.nbytes, self.assoc, self.addr, self.opq = line, data, nbytes, assoc, addr, opq
        self.lb, self.db, self.nw = line // 8, data // 8, line // 32
        self.offw, self.lenw, self.mlenw = log2(self.lb), log2(self.db), log2(self.lb)
        self.nlines = nbytes // self.lb
        self.nsets = self.nlines // assoc
        self.ww = max(1, log2(assoc))
        self.tagw = addr - self.offw - log2(self.nsets)

    def __str__(self):
        return f"{self.line}b lines, {self.data}b data, {self.nbytes} B, {self.assoc}-way" + \
            (f", {self.addr}b addr" if self.addr != 32 else "")

    def derived(self):
        from blocking_cache.CacheDerivedParams import CacheDerivedParams
        from mem_ifcs.MemMsg import mk_mem_msg
        return CacheDerivedParams(*mk_mem_msg(self.opq, self.addr, self.data),
                                  *mk_mem_msg(self.opq, self.addr, self.line), self.nbytes, self.assoc)

    def lens(self):
        """(len field, bytes) of the sub-word accesses, and the whole data width"""
        return [(0, self.db)] + [(1 << i, 1 << i) for i in range(self.lenw)]


def block(t, i, w):
    return EXT(t, i * w, (i + 1) * w)


def select(p, line, off, n):
    """the naturally aligned block of n bytes that contains byte off"""
    r = block(line, 0, 8 * n)
    for i in range(1, p.lb // n):
        at = EQ(EXT(off, log2(n), p.offw), C(i, p.offw - log2(n)))
        r = ITE(at, block(line, i, 8 * n), r)
    return r


def zx(t, w):
    return tm.zext(t, w) if t.w < w else t


def mux(p, v, v1):
    line, en, amo, ln, off, out = (v(x) for x in ("in_", "en", "amo", "len_", "offset", "out"))
    g = {}
    for f, n in p.lens():
        g[f"{n}-byte access"] = IMP(AND(en, NOT(amo), EQ(ln, C(f, p.lenw))), EQ(out, zx(select(p, line, off, n), p.data)))
    g["AMO delivers the low word"] = IMP(amo, EQ(EXT(out, 0, 32), EXT(line, 0, 32)))
    g["nothing selected gives zero"] = IMP(AND(NOT(en), NOT(amo)), EQ(out, C(0, p.data)))
    return [], g


def fast_mux(p, v, v1):
    h, g = mux(p, v, v1)
    g["AMO delivers the zero-extended low word"] = IMP(v("amo"), EQ(v("out"), zx(EXT(v("in_"), 0, 32), p.data)))
    return h, g


def replicator(p, v, v1):
    x, ln, amo, out = (v(k) for k in ("in_", "len_", "amo", "out"))
    g = {"AMO operand is zero-extended": IMP(amo, EQ(out, zx(x, p.line)))}
    for f, n in p.lens():
        g[f"{n}-byte data is repeated over the line"] = IMP(
            AND(NOT(amo), EQ(ln, C(f, p.lenw))), EQ(out, tm.concat(*[EXT(x, 0, 8 * n)] * (p.lb // n))))
    if p.data == 32 and p.line >= 64:
        g["length 3 repeats the word zero-extended to 8 bytes"] = IMP(
            AND(NOT(amo), EQ(ln, C(3, 2))), EQ(out, tm.concat(*[zx(x, 64)] * (p.line // 64))))
    return [], g


def indexer(p, v, v1):
    w = log2(p.nlines)
    i, o, out = v("index"), v("offset"), v("out")
    g = {}
    for k in range(p.assoc):
        g[f"row of way {k}"] = IMP(EQ(o, C(k, p.ww)), EQ(out, tm.add(zx(i, w), C(k * p.nsets, w))))
    return [], g


def offset_len(p, v, v1):
    amo, ln, off, oo, lo = (v(k) for k in ("is_amo", "len_i", "offset_i", "offset_o", "len_o"))
    word = C(4, p.mlenw) if p.data == 32 else zx(ln, p.mlenw)
    return [], {"whole line unless AMO": IMP(NOT(amo), AND(EQ(oo, C(0, p.offw)), EQ(lo, C(0, p.mlenw)))),
                "AMO keeps its offset": IMP(amo, EQ(oo, off)),
                "AMO accesses its word": IMP(amo, EQ(lo, word))}


def lengths(p):
    """(len field, bytes) of a WRITE, with the 8-byte WRITE of narrow caches"""
    ls = p.lens()
    if p.lenw > 1 and p.line >= 64:
        ls.append((3, 8))
    return ls


def aligned(p, off, n):
    k = log2(n)
    return EQ(EXT(off, 0, k), C(0, k)) if k else tm.TRUE


def wben(p, v, v1):
    cmd, dty, off, ln, out = (v(k) for k in ("cmd", "dty_mask", "offset", "len_", "out"))
    g = {"no command enables nothing": IMP(EQ(cmd, C(NONE, 2)), EQ(out, C(0, p.line))),
         "refill writes exactly the words that are not dirty": IMP(EQ(cmd, C(DIRTY, 2)), AND(
             *[EQ(block(out, i, 32), ITE(EXT(dty, i, i + 1), C(0, 32), C(2**32 - 1, 32))) for i in range(p.nw)]))}
    for f, n in lengths(p):
        k = log2(n)
        e = tm.TRUE
        for i in range(p.lb // n):
            here = EQ(EXT(off, k, p.offw), C(i, p.offw - k)) if p.offw > k else tm.TRUE
            e = AND(e, EQ(block(out, i, 8 * n), ITE(here, C(2**(8 * n) - 1, 8 * n), C(0, 8 * n))))
        g[f"{n}-byte request (length {f}) enables exactly its bytes"] = IMP(
            AND(EQ(cmd, C(REQ, 2)), EQ(ln, C(f, p.lenw)), aligned(p, off, n)), e)
    return [], g


def words(p, ln, off):
    """-> (aligned and legal, words touched)"""
    ok, m = tm.FALSE, C(0, p.nw)
    for f, n in lengths(p):
        c = AND(EQ(ln, C(f, p.lenw)), aligned(p, off, n))
        ok = OR(ok, c)
        k = max(1, n // 4)
        x = C((1 << k) - 1, p.nw)
        for i in range(1, p.nw // k):
            at = EQ(EXT(off, 2 + log2(k), p.offw), C(i, p.offw - 2 - log2(k)))
            x = ITE(at, C(((1 << k) - 1) << (i * k), p.nw), x)
        m = ITE(c, x, m)
    return ok, m


def tags(p, v, v1):
    en, at, init, off, ln = (v(k) for k in ("en", "addr_tag", "is_init", "offset", "wr_len"))
    ok, m = words(p, ln, off)
    val = [v(f"tag_array[{i}].val") for i in range(p.assoc)]
    dty = [v(f"tag_array[{i}].dty") for i in range(p.assoc)]
    tag = [v(f"tag_array[{i}].tag") for i in range(p.assoc)]
    same = [EQ(t, at) for t in tag]
    look = AND(en, NOT(init))
    hit = [AND(look, val[i], same[i]) for i in range(p.assoc)]
    inv = [AND(look, NOT(val[i]), tm.nonzero(dty[i]), same[i]) for i in range(p.assoc)]
    h = []
    if p.assoc == 2:        # a tag is in one way at most
        h = [NOT(AND(OR(hit[0], inv[0]), OR(hit[1], inv[1])))]
    g = {"hit exactly if a valid way holds the tag": EQ(v("hit"), OR(*hit)),
         "dirty invalid line found": EQ(v("inval_hit"), OR(*inv))}
    for i in range(p.assoc):
        g[f"way {i} reported"] = IMP(OR(hit[i], inv[i]), EQ(v("hit_way"), C(i, p.ww)))
        g[f"line of way {i} dirty"] = EQ(EXT(v("line_dirty"), i, i + 1), AND(en, tm.nonzero(dty[i])))
        g[f"accessed words of way {i} dirty"] = IMP(ok, EQ(EXT(v("word_dirty"), i, i + 1),
                                                           EQ(tm.and_(dty[i], m), m)))
        for f in ("tag", "val", "dty"):
            x = v(f"tag_array[{i}].{f}")
            g[f"{f} of way {i} passed on if enabled"] = EQ(v(f"tag_entires[{i}].{f}"), ITE(en, x, C(0, x.w)))
    return h, g


def update_tag(p, v, v1):
    way, off, cmd, rd, ln = (v(k) for k in ("way", "offset", "cmd", "refill_dty", "wr_len"))
    ok, m = words(p, ln, off)

    def old(f):
        r = v(f"old_entries[0].{f}")
        return ITE(EQ(way, C(1, 1)), v(f"old_entries[1].{f}"), r) if p.assoc == 2 else r
    tag, val, dty = old("tag"), old("val"), old("dty")
    is_ = lambda k: EQ(cmd, C(k, 3))
    o = {f: v("out." + f) for f in ("tag", "val", "dty")}
    same = lambda *fs: AND(*[EQ(o[f], old(f)) for f in fs])
    h = [] if p.assoc == 2 else [EQ(way, C(0, 1))]
    g = {"no command keeps the entry": IMP(is_(0), same("tag", "val", "dty")),
         "clear": IMP(is_(T_CLEAR), AND(EQ(o["tag"], C(0, tag.w)), NOT(o["val"]), EQ(o["dty"], C(0, dty.w)))),
         "write hit marks the words written": IMP(AND(is_(T_WHIT), ok), AND(
             same("tag", "val"), EQ(o["dty"], tm.or_(dty, m)))),
         "refill for a read": IMP(is_(T_RREFILL), AND(same("tag"), o["val"], EQ(o["dty"], rd))),
         "refill for a write": IMP(AND(is_(T_WREFILL), ok), AND(same("tag"), o["val"], EQ(o["dty"], tm.or_(rd, m)))),
         "invalidate keeps tag and dirty bits": IMP(is_(T_INV), AND(same("tag", "dty"), NOT(o["val"])))}
    return h, g


def counter(reset_value, w):
    def spec(p, v, v1):
        en, dn, out, out1 = v("en"), v("count_down"), v("out"), v1("out")
        r = v("reset")
        return [], {"reset": IMP(r, EQ(out1, C(reset_value, w))),
                    "holds": IMP(AND(NOT(r), NOT(en)), EQ(out1, out)),
                    "counts up": IMP(AND(NOT(r), en, NOT(dn)), EQ(out1, tm.add(out, C(1, w)))),
                    "counts down": IMP(AND(NOT(r), en, dn), EQ(out1, tm.sub(out, C(1, w))))}
    return spec


def updown(reset_value, w):
    def spec(p, v, v1):
        out, out1, r = v("out"), v1("out"), v("reset")
        u, d, ld = v("up_en"), v("dw_en"), v("ld_en")
        n = AND(NOT(r), NOT(ld))
        return [], {"reset": IMP(r, EQ(out1, C(reset_value, w))),
                    "load": IMP(AND(NOT(r), ld), EQ(out1, v("ld_amt"))),
                    "up": IMP(AND(n, u, NOT(d)), EQ(out1, tm.add(out, v("up_amt")))),
                    "down": IMP(AND(n, d, NOT(u)), EQ(out1, tm.sub(out, v("dw_amt")))),
                    "holds when both or neither": IMP(AND(n, EQ(u, d)), EQ(out1, out))}
    return spec


def policy(p, v, v1):
    en, hit, hp, rp, out = (v("repre" + x) for x in ("q_en", "q_is_hit", "q_hit_ptr", "q_ptr", "sp_ptr"))
    g = {"always ready": v("repreq_rdy")}
    if p.assoc == 2:
        g["keeps the victim without an access"] = IMP(NOT(en), EQ(out, rp))
        g["a hit makes the other way the victim"] = IMP(AND(en, hit), EQ(out, NOT(hp)))
        g["a miss replaces the victim, the other way is next"] = IMP(AND(en, NOT(hit)), EQ(out, NOT(rp)))
    else:
        g["one way: always way 0"] = EQ(out, C(0, 1))
    return [], g


def mshr(p, v, v1):
    a, d, r, full, empty = (v(k) for k in ("alloc_en", "dealloc_en", "reset", "full", "empty"))
    h = [NOT(AND(a, d)), IMP(a, empty), IMP(d, NOT(empty))]
    g = {"full": EQ(full, OR(NOT(empty), a)),
         "occupied from allocation to deallocation": EQ(v1("empty"), OR(r, d, AND(empty, NOT(a)))),
         "identifies the entry by its opaque field": EQ(v("alloc_id"), v("alloc_in.opaque"))}
    g["keeps the entry allocated"] = IMP(NOT(r), EQ(v1("dealloc_out"), ITE(a, v("alloc_in"), v("dealloc_out"))))
    return h, g


def stall(p, v, v1):
    return [], {"transparent while enabled": IMP(v("en"), EQ(v("out"), v("in_"))),
                "holds the last enabled value": IMP(NOT(v1("en")), EQ(v1("out"), v("out")))}


def reps(p, v, v1):
    ra1, rd1 = v1("raddr"), v1("rdata")
    r, wen, wa, wd = v("reset"), v("wen"), v("waddr"), v("wdata")
    return [], {"a write is read back": IMP(AND(NOT(r), wen, EQ(ra1, wa)), EQ(rd1, wd)),
                "other sets keep their bit": IMP(AND(NOT(r), NOT(AND(wen, EQ(ra1, wa))), EQ(ra1, v("raddr"))),
                                                 EQ(rd1, v("rdata"))),
                "reset clears": IMP(r, NOT(rd1))}


def U(cls, *args):
    def make(p):
        import importlib
        mod, name = cls.rsplit(".", 1)
        k = getattr(importlib.import_module("blocking_cache.units." + mod), name)
        c = k(*[a(p) if callable(a) else a for a in args])
        c.elaborate()
        return c
    return make


def bits(n):
    def f(p):
        from pymtl3 import mk_bits
        return mk_bits(n)
    return f


D_ = lambda p: p.derived()
WIDTHS = [P(128, 32), P(64, 32), P(128, 64), P(128, 128), P(256, 32), P(256, 128), P(64, 64), P(512, 64, 256)]
MORE = [P(256, 64), P(512, 32, 256), P(512, 128, 256), P(32, 32), P(256, 256)]
GEOM = [P(), P(128, 32, 64, 2), P(128, 32, 4096, 2), P(128, 64, 1024, 2, 64), P(256, 128, 2048, 2), P(64, 32, 32, 1, 24),
        P(128, 128, 128, 2), P(64, 64, 64, 2)]
GEOM_MORE = [P(512, 64, 4096, 2), P(128, 32, 16384, 2), P(256, 32, 1024, 1)]
REPS = [P(128, 32, 32, 1), P(128, 32, 64, 2), P(128, 32, 512, 2)]
REPS_MORE = [P(128, 32, 4096, 2)]


def units(thorough):
    w = WIDTHS + (MORE if thorough else [])
    g = GEOM + (GEOM_MORE if thorough else [])
    out = []

    def add(name, make, spec, ps):
        out.extend((name, make, spec, p) for p in ps)
    add("FastDataSelectMux", U("muxes.FastDataSelectMux", D_), fast_mux, [p for p in w if p.data >= 32 and p.line >= 64])
    add("DataSelectMux", U("muxes.DataSelectMux", D_), mux, [p for p in w if p.line >= 64])
    add("DataReplicator", U("arithmetics.DataReplicator", D_), replicator, [p for p in w if p.line >= 64])
    add("OffsetLenSelector", U("arithmetics.OffsetLenSelector", D_), offset_len, [p for p in w if p.line >= 64])
    add("WriteBitEnGen", U("arithmetics.WriteBitEnGen", D_), wben, [p for p in w if 64 <= p.line and p.data <= 128])
    add("Indexer", U("arithmetics.Indexer", D_), indexer, [p for p in g if p.nsets > 1])
    add("TagArrayRDataProcessUnit", U("arithmetics.TagArrayRDataProcessUnit", D_), tags, [p for p in g if p.nsets > 1])
    add("UpdateTagArrayUnit", U("UpdateTagArrayUnit.UpdateTagArrayUnit", D_), update_tag, [p for p in g if p.nsets > 1])
    add("ReplacementPolicy", U("ReplacementPolicy.ReplacementPolicy", D_), policy, g[:2])
    add("ReplacementBitsReg", U("registers.ReplacementBitsReg", D_), reps, REPS + (REPS_MORE if thorough else []))
    add("MSHR", U("MSHR.MSHR", D_, 1), mshr, g)
    for n in (1, 8, 27):
        add(f"StallEngine({n} bits)", U("StallEngine.StallEngine", bits(n)), stall, [P()])
    for n, r in ((3, 0), (8, 255), (5, 3), (16, 1)):
        add(f"CounterEnRst({n} bits, {r})", U("counters.CounterEnRst", bits(n), r), counter(r, n), [P()])
        add(f"CounterUpDown({n} bits, {r})", U("counters.CounterUpDown", bits(n), r), updown(r, n), [P()])
    return out


# ------------------------------------------------------------ symbolic view
class Sym:
    def __init__(self, d):
        self.d, nx = d, d.next_terms()
        self.now, self.nx = {}, nx
        self.sub = None

    def v(self, name):
        return self.d.get(name)

    def v1(self, name):
        if self.sub is None:
            self.sub = {self.d.regs[q].p: self.nx[q] for q in self.d.regs}
        t = self.v(name)
        m = dict(self.sub)
        for x in tm.topo([t]):
            if x.op == "v" and x.p not in m:
                m[x.p] = V(("next", x.p), x.w)
        return tm.subst(t, m, {})


def goals(u):
    """-> (design, hyps, {name: goal}, no-exception obligations)"""
    name, make, spec, p = u
    d = Design(make(p))
    s = Sym(d)
    h, g = spec(p, s.v, s.v1)
    ob = [(o, t) for o, t in d.obligations() if o is not tm.TRUE]
    return d, h, g, ob


# ------------------------------------------------------------ the real thing
def put(m, vals, nxt):
    for (sig, path), x in vals.items():
        (set_reg if nxt else set_leaf)(m, sig, path, x)


def port(m, name):
    o = m
    for part in name.replace("[", ".[").split("."):
        o = o[int(part[1:-1])] if part.startswith("[") else getattr(o, part)
    b = o.to_bits() if hasattr(o, "to_bits") else o
    return C(int(b), b.nbits)


def replay(u, d, model):
    """model: str(var name) -> value.  Runs the real component from that state
    with those inputs for two cycles; -> names of violated clauses (None: the
    model does not satisfy the precondition there)"""
    from pymtl3 import DefaultPassGroup
    name, make, spec, p = u
    m = make(p)
    m.apply(DefaultPassGroup())
    m.sim_reset()
    regs = {k: model.get(str(t.p), 0) for k, t in d.regs.items()}
    ins = {k: model.get(str(t.p), 0) for k, t in d.inputs.items()}
    ins1 = {k: model.get(str(("next", t.p)), 0) for k, t in d.inputs.items()}
    skip = lambda x: {k: v for k, v in x.items() if not repr(k[0]).endswith(".clk")}
    put(m, regs, True)
    put(m, skip(ins), False)
    m.sim_eval_combinational()
    names = []
    seen = {}

    def rec(name):
        names.append(name)
        return port(m, name)
    # ask the contract which ports it reads
    spec(p, rec, rec)
    for n in set(names):
        seen[n] = port(m, n)
    m.sim_tick()
    put(m, skip(ins1), False)
    m.sim_eval_combinational()
    seen1 = {n: port(m, n) for n in set(names)}
    h, g = spec(p, lambda n: seen[n], lambda n: seen1[n])
    if not all(x is tm.TRUE for x in h):
        return None
    return [k for k, t in g.items() if t is not tm.TRUE], seen, seen1


def simulate(u, seed, secs):
    """random runs of the real component judged by its contract"""
    import random
    from pymtl3 import DefaultPassGroup
    from pymtl3.datatypes import is_bitstruct_class
    r = random.Random(seed)
    name, make, spec, p = u
    m = make(p)
    m.apply(DefaultPassGroup())
    m.sim_reset()
    ins = [s for s in m.get_input_value_ports() if repr(s) not in ("s.clk",)]
    names = set()

    def rec(n):
        names.add(n)
        return port(m, n)
    spec(p, rec, rec)
    end, n = time.time() + secs, 0
    prev = None
    while time.time() < end:
        for s in ins:
            T = s._dsl.Type
            w = T.nbits
            x = 0 if repr(s) == "s.reset" and r.random() < .95 else r.choice([0, 1, 2, 4, 8, (1 << w) - 1, r.getrandbits(w)])
            x &= (1 << w) - 1
            from pymtl3 import mk_bits
            b = mk_bits(w)(x)
            walk_set(m, s, T.from_bits(b) if is_bitstruct_class(T) else b)
        m.sim_eval_combinational()
        now = {k: port(m, k) for k in names}
        if prev is not None:
            h, g = spec(p, lambda k: prev[k], lambda k: now[k])
            if all(x is tm.TRUE for x in h):
                bad = [k for k, t in g.items() if t is not tm.TRUE]
                if bad:
                    return (bad, {k: hex(t.p) for k, t in prev.items()}, {k: hex(t.p) for k, t in now.items()}), n
        prev = now
        m.sim_tick()
        n += 1
    return None, n


def walk_set(m, sig, val):
    o = walk(m, sig, ())
    o @= val


if __name__ == "__main__":
    import sys
    from .prove import solve
    t = time.time()
    for u in units(len(sys.argv) > 1):
        try:
            d, h, g, ob = goals(u)
        except Exception as e:      # noqa: BLE001
            print(u[0], u[3], "unreached", type(e).__name__, e)
            continue
        for n, x in g.items():
            r = solve(h, x, 60)
            if r[0] != "proved":
                print(u[0], u[3], n, r[0], {k: hex(v) for k, v in (r[1] or {}).items() if v})
        for o, tx in ob:
            r = solve(h, o, 60)
            if r[0] != "proved":
                print(u[0], u[3], "exception", tx, r[0], {k: hex(v) for k, v in (r[1] or {}).items() if v})
    print(time.time() - t)
