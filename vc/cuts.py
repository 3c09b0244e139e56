"""Contracts that stand for a component's body in a caller's proof.  Each is
proved against the body in its own obligations (contracts.py); here a caller
sees nothing but the contract.

SRAM contract (rows k of interest, watched; everything else unconstrained):
  write:  val & type    -> mem[idx] := (mem[idx] & ~wben) | (wdata & wben)
  read:   val & ~type   -> rdata' = mem[idx]
  else                  -> rdata' unconstrained (the cache does not rely on the
                           model's holding it: --replace-sram drives 0)
  no other row changes.
"""
from . import term as tm


class Sram:
    def __init__(self, comp, name, rows):
        self.c, self.name = comp, name
        self.rows = rows            # [(label, index term)]
        self.state = {}

    def outputs(self, d):
        c = self.c
        self.w = c.port0_rdata._dsl.Type.nbits
        self.dout = tm.var((self.name, "rdata"), self.w)
        self.row = [tm.var((self.name, "row", l), self.w) for l, _ in self.rows]
        self.havoc = tm.var((self.name, "other"), self.w)
        return [(c.port0_rdata, (), self.w)]

    def output(self, d, sig, path):
        return self.dout

    def attach(self, d):
        pass

    def ports(self, d):
        c = self.c
        return [d.value(p) for p in (c.port0_val, c.port0_type, c.port0_idx,
                                     c.port0_wdata, c.port0_wben)]

    def nexts(self, d):
        val, typ, idx, wd, wb = self.ports(d)
        rd = self.havoc
        out = {}
        for r, (l, k) in reversed(list(zip(self.row, self.rows))):
            hit = tm.eq(idx, k)
            rd = tm.ite(hit, r, rd)
            out[r.p] = tm.ite(tm.andl(val, typ, hit),
                              tm.or_(tm.and_(r, tm.not_(wb)), tm.and_(wd, wb)), r)
        out[self.dout.p] = tm.ite(tm.and_(val, tm.not_(typ)), rd, self.havoc)
        return out

    def havocs(self):
        return [self.havoc]

    def state_vars(self):
        return [self.dout] + self.row


class ReplBits:
    """One replacement bit per set; the watched set's bit is tracked.
      rdata = bit[raddr];  wen -> bit[waddr] := wdata;  reset -> all 0."""

    def __init__(self, comp, name, idx):
        self.c, self.name, self.idx = comp, name, idx

    def outputs(self, d):
        self.bit = tm.var((self.name, "bit"), 1)
        self.havoc = tm.var((self.name, "other"), 1)
        return [(self.c.rdata, (), 1)]

    def output(self, d, sig, path):
        return tm.ite(tm.eq(d.value(self.c.raddr), self.idx), self.bit, self.havoc)

    def attach(self, d):
        pass

    def nexts(self, d):
        c = self.c
        w = tm.and_(d.value(c.wen), tm.eq(d.value(c.waddr), self.idx))
        return {self.bit.p: tm.ite(d.value(c.reset), tm.FALSE,
                                   tm.ite(w, d.value(c.wdata), self.bit))}

    def havocs(self):
        return [self.havoc]

    def state_vars(self):
        return [self.bit]
