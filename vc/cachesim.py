"""Concrete execution of the extracted transition system against a random
legal environment (memory, client, other agents).  Used to look for a failing
input after an obligation failed, and to sanity-check invariants; never to
decide a property."""
import random

from . import term as tm
from .cache import READ, WRITE, INIT, AMO_LO, AMO_HI, INV, FLUSH
from .compile import compile_terms


def amo(op, old, x):
    s = lambda v: v - (1 << 32) if v >> 31 else v
    return {3: (old + x) & 0xffffffff, 4: old & x, 5: old | x, 6: x,
            7: old if s(old) < s(x) else x, 8: min(old, x),
            9: old if s(old) > s(x) else x, 10: max(old, x), 11: old ^ x}[op]


class Runner:
    def __init__(self, c, extra=None):
        """c: Cache; extra: {name: 1-bit term over state} also evaluated (True
        expected) at the start of every cycle."""
        self.c = c
        self.extra = extra or {}
        self.sv = list(c.state.values())
        self.iv = list(c.inputs.values())
        self.spos = {v.p: i for i, v in enumerate(self.sv)}
        self.ipos = {v.p: i for i, v in enumerate(self.iv)}
        p = c.p
        self.pn = list(p)
        self.ck = list(c.checks)
        sram = []
        self.sr = []
        for u in c.tag_cut + [c.data_cut]:
            self.sr.append((u, len(sram)))
            sram += u.ports(c.d)
        rc = c.rep_cut.c
        rep = [c.d.value(rc.raddr), c.d.value(rc.waddr), c.d.value(rc.wen), c.d.value(rc.wdata)]
        ksel = [k for u, _ in self.sr for _, k in u.rows]
        self.n0 = len(self.sv)
        self.n1 = self.n0 + len(self.pn)
        self.n2 = self.n1 + len(self.ck)
        self.n3 = self.n2 + len(sram)
        self.n4 = self.n3 + len(rep)
        self.n5 = self.n4 + len(ksel)
        self.en = list(self.extra)
        obl = c.d.obligations()
        self.obl = [t for o, t in obl if o is not tm.TRUE]
        roots = ([c.nxt[v.p] for v in self.sv] + [p[n] for n in self.pn] +
                 [c.checks[n] for n in self.ck] + sram + rep + ksel +
                 [self.extra[n] for n in self.en] + [o for o, t in obl if o is not tm.TRUE])
        self.f = compile_terms(roots, self.sv + self.iv)
        pi = {}
        for n in self.pn:
            t = p[n]
            if t.op == "v" and t.p in self.ipos:
                pi[n] = self.ipos[t.p]
        self.pi = pi

    def run(self, seed, cycles=300, ext=True, A=None, record=False, bias=None):
        """Returns list of (cycle, kind, name) violations (first ones) and the
        stimulus trace."""
        c, cfg = self.c, self.c.cfg
        rnd = random.Random(seed)
        lb = c.lb
        # a small pool of conflicting lines
        sets = [rnd.randrange(c.nsets) for _ in range(2)]
        if rnd.random() < .5:
            sets[0] = rnd.choice([0, c.nsets - 1])
        tags = [rnd.getrandbits(c.tagw) for _ in range(rnd.choice([2, 3, 4]))]
        lines = [(t << c.idxw) | s for t in tags for s in sets]
        if A is None:
            A = (rnd.choice(lines) << c.offw) | rnd.randrange(lb)
        hot = [(l << c.offw) for l in lines]
        mem = {}
        S = [0] * len(self.sv)
        S[self.spos["A"]] = A
        srams = [{} for _ in self.sr]
        rep = {}
        dl = 8 * lb

        def rd(a):
            if a not in mem:
                mem[a] = rnd.getrandbits(8)
            return mem[a]
        prd, pwr, pamo, pinv, pflush = rnd.choice(
            [(4, 4, 1, .3, .3), (6, 6, 0, 0, 0), (3, 3, 2, 1, 1), (4, 6, 2, .2, .0), (2, 4, 0, .5, .5),
             (4, 4, 1, 1, 0), (4, 4, 1, 0, 1)])
        pen = rnd.choice([.2, .6, 1])
        prdy = rnd.choice([(1, 1), (.5, 1), (1, .5), (.5, .5), (.2, .9)])
        pmem = rnd.choice([1, .5, .2])
        pext = rnd.choice([0, 0, .02]) if ext else 0
        smalloff = rnd.random() < .5
        sv = self.spos
        viol = []
        trace = []
        memq = []
        I = [0] * len(self.iv)
        rstn = rnd.choice([1, 2, 3])
        nreq = 0
        for cyc in range(cycles):
            reset = cyc < rstn
            for k, (u, _) in enumerate(self.sr):
                w = u.w
                S[sv[u.dout.p]] = srams[k].get("dout", 0)
            for i in range(len(I)):
                I[i] = 0
            pi = self.pi
            I[pi["reset"]] = int(reset)
            if not reset:
                I[pi["cresp_rdy"]] = int(rnd.random() < prdy[0])
                I[pi["mreq_rdy"]] = int(rnd.random() < prdy[1])
            # watched rows
            def load(I):
                for k, (u, _) in enumerate(self.sr):
                    for j, r in enumerate(u.row):
                        pass
            # row index terms depend only on A
            if cyc == 0:
                R = self.f(S + I)
                self.rowidx = R[self.n4:self.n5]
            z = 0
            for k, (u, _) in enumerate(self.sr):
                for r in u.row:
                    S[sv[r.p]] = srams[k].get(self.rowidx[z], 0)
                    z += 1
            ridx = (A >> c.offw) & (c.nsets - 1)
            S[sv[c.rep_cut.bit.p]] = rep.get(ridx, 0)
            hv = self.ipos[c.rep_cut.havoc.p]
            R = self.f(S + I)
            I[hv] = rep.get(R[self.n3], 0)
            R = self.f(S + I)
            P = dict(zip(self.pn, R[self.n0:self.n1]))
            if not reset:
                if P["creq_rdy"] and rnd.random() < pen:
                    t = rnd.choices(["r", "w", "a", "i", "f"], [prd, pwr, pamo, pinv, pflush])[0]
                    a = rnd.choice(hot)
                    off = rnd.choice([0, 0, 4, 8, rnd.randrange(lb)]) % lb
                    if rnd.random() < .4:
                        a, off = A & ~(lb - 1), A & (lb - 1)
                    full = c.dw // 8
                    sz = rnd.choice([full, full, 1 << rnd.randrange(c.lenw + 1)])
                    ln = 0 if sz == full else sz
                    if t == "w" and c.dw == 32 and cfg.line >= 64 and rnd.random() < .15:
                        ln, sz = 3, 8
                    ty = {"r": READ, "w": WRITE, "i": INV, "f": FLUSH}.get(t)
                    if t == "a":
                        ty, sz, ln = rnd.randrange(AMO_LO, AMO_HI + 1), 4, 0 if c.dw == 32 else 4
                    a += off & ~(sz - 1)
                    I[pi["creq_en"]] = 1
                    I[pi["creq_type_"]] = ty
                    I[pi["creq_opaque"]] = rnd.getrandbits(cfg.opq)
                    I[pi["creq_addr"]] = a
                    I[pi["creq_len"]] = ln
                    I[pi["creq_data"]] = rnd.getrandbits(c.dw)
                    nreq += 1
                else:
                    if rnd.random() < .5:
                        for n in ("type_", "opaque", "addr", "len", "data"):
                            j = pi["creq_" + n]
                            I[j] = rnd.getrandbits(self.iv[j].w)
                if rnd.random() < pext:
                    b = rnd.getrandbits(8)
                    mem[A] = b
                    I[self.ipos[("env", "other_agent_writes")]] = 1
                    I[self.ipos[("env", "other_agent_value")]] = b
                if memq and rnd.random() < pmem and P["mresp_rdy"]:
                    ty, opq, ad, ln, old, wmask = memq.pop(0)
                    I[pi["mresp_en"]] = 1
                    I[pi["mresp_type_"]] = ty
                    I[pi["mresp_opaque"]] = opq
                    if ty == READ:
                        I[pi["mresp_data"]] = sum(rd((ad & ~(lb - 1)) + i) << (8 * i) for i in range(lb))
                    elif AMO_LO <= ty <= AMO_HI:
                        I[pi["mresp_data"]] = old
                    else:
                        I[pi["mresp_data"]] = rnd.getrandbits(dl)
            R = self.f(S + I)
            P = dict(zip(self.pn, R[self.n0:self.n1]))
            if P["mreq_en"] and not reset:
                ty, ad = P["mreq_type_"], P["mreq_addr"]
                old = 0
                if ty == WRITE:
                    for i in range(lb):
                        if (P["mreq_wr_mask"] >> (i // 4)) & 1:
                            mem[(ad & ~(lb - 1)) + i] = (P["mreq_data"] >> (8 * i)) & 255
                elif AMO_LO <= ty <= AMO_HI:
                    a4 = ad & ~3
                    old = sum(rd(a4 + i) << (8 * i) for i in range(4))
                    nw = amo(ty, old, P["mreq_data"] & 0xffffffff)
                    for i in range(4):
                        mem[a4 + i] = (nw >> (8 * i)) & 255
                    if a4 <= A < a4 + 4:
                        I[self.ipos[("env", "amo_result")]] = mem[A]
                memq.append((ty, P["mreq_opaque"], ad, P["mreq_len"], old, 0))
                R = self.f(S + I)
            if record:
                trace.append((list(S), list(I)))
            if not reset and cyc > rstn:
                for n, v in zip(self.ck, R[self.n1:self.n2]):
                    if not v:
                        viol.append((cyc, "check", n))
                for n, v in zip(self.en, R[self.n5:self.n5 + len(self.en)]):
                    if not v:
                        viol.append((cyc, "inv", n))
                for n, v in zip(self.obl, R[self.n5 + len(self.en):]):
                    if not v:
                        viol.append((cyc, "obl", n))
                if viol:
                    return viol, trace, nreq
            N = R[:self.n0]
            for k, (u, o) in enumerate(self.sr):
                val, typ, idx, wd, wb = R[self.n2 + o:self.n2 + o + 5]
                a = srams[k]
                if val and typ:
                    a[idx] = (a.get(idx, 0) & ~wb) | (wd & wb)
                elif val:
                    a["dout"] = a.get(idx, 0)
            ra, wa, we, wd = R[self.n3:self.n4]
            if reset:
                rep.clear()
            elif we:
                rep[wa] = wd
            S = N
            if reset:
                # ghost initial state
                for v in self.sv:
                    if isinstance(v.p, tuple) and v.p[0] == "ghost":
                        S[sv[v.p]] = 0
                S[sv[("ghost", "gone")]] = 1
                S[sv[("ghost", "M")]] = S[sv[("ghost", "B")]] = rd(A)
                memq.clear()
        self.last_nreq = nreq
        return viol, trace, nreq
