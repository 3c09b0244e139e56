"""Closed-loop test bench for BlockingCacheRTL, self-contained: run from the
repository's root.  Requests, memory timing and ready patterns come from the
caller; the scoreboard is byte-level over the whole address space.

tb = TB(nbytes, assoc, line, data); tb.run(ops, ...) -> list of complaints.
op: (type, addr, len, data) optionally with a 5th element: idle cycles before
it may be sent.  type: "rd" "wr" "inv" "fl" or an AMO number 3..11.
("ext", addr, byte) is a write by another agent once all earlier ops are done.
("rst",) resets the cache once all earlier ops are done, ("rst!",) at once.
"""
import os
import random
import sys

sys.path.insert(0, os.getcwd())
sys.setrecursionlimit(100000)
from pymtl3 import DefaultPassGroup  # noqa: E402

READ, WRITE, INV, FLUSH = 0, 1, 14, 15
NAMES = {"rd": READ, "wr": WRITE, "inv": INV, "fl": FLUSH}


def amo(t, old, x):
    s = lambda v: v - (1 << 32) if v >> 31 else v
    return {3: (old + x) & 0xffffffff, 4: old & x, 5: old | x, 6: x, 7: min(old, x, key=s), 8: min(old, x),
            9: max(old, x, key=s), 10: max(old, x), 11: old ^ x}[t]


class TB:
    def __init__(self, nbytes, assoc, line=128, data=32, addr=32, opq=8):
        from mem_ifcs.MemMsg import mk_mem_msg
        from blocking_cache.BlockingCacheRTL import BlockingCacheRTL
        self.lb, self.dwb = line // 8, data // 8
        self.nsets = nbytes // self.lb // assoc
        self.nlines = self.nsets * assoc
        self.dut = BlockingCacheRTL(*mk_mem_msg(opq, addr, data, has_wr_mask=False), *mk_mem_msg(opq, addr, line),
                                    nbytes, assoc)
        self.dut.elaborate()
        self.dut.apply(DefaultPassGroup())
        self.opq = opq
        self.assoc = assoc

    def get(self, a):
        return self.mem.setdefault(a, random.Random(a * 31 + 7).getrandbits(8))

    def client(self, a):
        return self.B.get(a, self.get(a))

    def size(self, op):
        t, n = op[0], op[2]
        if t == WRITE and self.dwb == 4 and n == 3:
            return 8
        return n or self.dwb

    def run(self, ops, mem_lat=lambda k: 1, resp_rdy=lambda c: True, mem_rdy=lambda c: True, limit=20000,
            verbose=False):
        d = self.dut
        mi, ma = d.mem_minion_ifc, d.mem_master_ifc
        self.mem, self.B, self.dirty, self.X = {}, {}, set(), set()
        self.bad = []
        self.log = []               # answered: (op, data, test, cycle accepted, cycle answered, memory requests)
        self.memlog = []
        pend, q = [], []
        resident = set()
        lru = {}
        ops = list(ops)
        acc_total = 0
        rst = 2
        lbl = {v: k for k, v in NAMES.items()}
        cyc = -1
        quiet = 0
        wait_idle = 0
        idle_wait = 0
        while True:
            cyc += 1
            if cyc > limit:
                self.bad.append((cyc, "hang", f"{len(ops)} requests left, {len(pend)} unanswered"))
                break
            # bookkeeping ops
            while ops and ops[0][0] in ("ext", "rst", "rst!") and (ops[0][0] == "rst!" or not pend) and not rst:
                o = ops.pop(0)
                if o[0] == "ext":
                    self.mem[o[1]] = o[2]
                    if o[1] not in self.dirty:
                        self.X.add(o[1])
                else:
                    rst = 1
            d.reset @= int(rst > 0)
            mi.req.en @= 0
            ma.resp.en @= 0
            # as wires do, the ports carry anything while en is low
            mi.req.msg.type_ @= 0
            mi.req.msg.addr @= 0
            mi.req.msg.len @= 0
            mi.req.msg.data @= 0
            rr, mr = bool(resp_rdy(cyc)), bool(mem_rdy(cyc))
            mi.resp.rdy @= int(rr and not rst)
            ma.req.rdy @= int(mr and not rst)
            if rst:
                d.sim_eval_combinational()
                d.sim_tick()
                rst -= 1
                pend, q = [], []
                self.B, self.dirty, self.X = {}, set(), set()
                resident, lru = set(), {}
                continue
            d.sim_eval_combinational()
            recv = None
            if q and q[0]["at"] <= cyc:
                if not int(ma.resp.rdy):
                    self.bad.append((cyc, "memory response refused", ""))
                recv = q[0]
                ma.resp.en @= 1
                m = ma.resp.msg
                m.type_ @= recv["type"]
                m.opaque @= recv["opq"]
                m.len @= recv["len"]
                m.data @= recv["data"] if recv["type"] != READ else \
                    sum(self.get(recv["addr"] + k) << (8 * k) for k in range(self.lb))
            sent = None
            if ops and ops[0][0] not in ("ext", "rst", "rst!") and int(mi.req.rdy):
                o = ops[0]
                if len(o) > 4 and idle_wait < o[4]:
                    idle_wait += 1
                else:
                    idle_wait = 0
                    ops.pop(0)
                    t = NAMES.get(o[0], o[0])
                    sent = dict(op=(t,) + tuple(o[1:4]), opq=(acc_total * 37 + 11) % (1 << self.opq), at=cyc, n=0, rd=0, wr=0)
                    acc_total += 1
                    m = mi.req.msg
                    m.type_ @= t
                    m.opaque @= sent["opq"]
                    m.addr @= o[1]
                    m.len @= o[2]
                    m.data @= o[3]
                    mi.req.en @= 1
            d.sim_eval_combinational()
            # memory request
            new = None
            if int(ma.req.en):
                m = ma.req.msg
                t, a, w, dat = int(m.type_), int(m.addr), int(m.wr_mask), int(m.data)
                new = dict(type=t, addr=a, opq=int(m.opaque), len=int(m.len), data=0, at=cyc + max(1, mem_lat(len(self.memlog))))
                self.memlog.append((cyc, t, a, w, dat))
                if not mr:
                    self.bad.append((cyc, "memory request while not ready", ""))
                r = pend[0] if pend else None
                if t in (READ, WRITE) and (a % self.lb or int(m.len)):
                    self.bad.append((cyc, "not one whole line", hex(a)))
                line = a // self.lb
                if r is None:
                    self.bad.append((cyc, "memory request without a pending client request", ""))
                else:
                    rt, ra = r["op"][0], r["op"][1]
                    if rt == INV:
                        self.bad.append((cyc, "INV reached memory", ""))
                    if t == READ and (rt not in (READ, WRITE) or ra // self.lb != line or r["rd"]):
                        self.bad.append((cyc, "needless fetch", hex(a)))
                    if t == WRITE and (r["rd"] or (rt != FLUSH and r["wr"]) or
                                       (rt in (READ, WRITE) and line % self.nsets != ra // self.lb % self.nsets) or
                                       (3 <= rt <= 11 and line != ra // self.lb)):
                        self.bad.append((cyc, "needless write-back", hex(a)))
                    if t == READ and lru.get(line, (False, None))[0]:
                        self.bad.append((cyc, "recently used line fetched again", hex(a)))
                    if t == WRITE:
                        r["wr"] += 1
                    else:
                        r["rd"] += 1
                if t == WRITE:
                    if w == 0:
                        self.bad.append((cyc, "empty write mask", hex(a)))
                    for k in range(self.lb):
                        b = a // self.lb * self.lb + k
                        if (w >> (k // 4)) & 1:
                            v = (dat >> (8 * k)) & 255
                            if not any(4 * (b // 4) + j in self.dirty for j in range(4)):
                                self.bad.append((cyc, "write-back of a word never written", hex(b)))
                            if b not in self.X and v != self.client(b):
                                self.bad.append((cyc, "write-back of a wrong value", f"{b:#x}: {v:#x} not {self.client(b):#x}"))
                            self.mem[b] = v
                    self.dirty -= {line * self.lb + k for k in range(self.lb) if (w >> (k // 4)) & 1}
                elif 3 <= t <= 11:
                    if r is None or r["op"][0] != t or r["op"][1] != a or int(m.opaque) != r["opq"] or \
                            (dat ^ r["op"][3]) & 0xffffffff:
                        self.bad.append((cyc, "AMO differs from the request", hex(a)))
                    for k in range(4):
                        if a + k in self.dirty or (a + k not in self.X and self.client(a + k) != self.get(a + k)):
                            self.bad.append((cyc, "AMO before its word was written back", hex(a)))
                    old = sum(self.get(a + k) << (8 * k) for k in range(4))
                    nv = amo(t, old, dat & 0xffffffff)
                    for k in range(4):
                        self.mem[a + k] = (nv >> (8 * k)) & 255
                    new["data"] = old
                    if r is not None:
                        r["old"] = old
                elif t != READ:
                    self.bad.append((cyc, "memory request type", t))
            # client response
            if int(mi.resp.en):
                m = mi.resp.msg
                if not rr:
                    self.bad.append((cyc, "response while not ready", ""))
                if not pend:
                    self.bad.append((cyc, "response without request", ""))
                else:
                    r = pend.pop(0)
                    self.answer(cyc, r, m, resident, lru, q, recv)
            if recv:
                q.pop(0)
            if new:
                q.append(new)
                if len(q) > 2:
                    self.bad.append((cyc, "more than two memory requests outstanding", ""))
            if sent:
                pend.append(sent)
            d.sim_tick()
            if verbose and (sent or new or self.log and self.log[-1][4] == cyc):
                print(cyc, sent and sent["op"], new and (new["type"], hex(new["addr"]), hex(self.memlog[-1][3])),
                      self.log[-1][:3] if self.log and self.log[-1][4] == cyc else "")
            if not pend and not ops:
                quiet += 1
                if quiet > 12 and not q:
                    break
            else:
                quiet = 0
        return self.bad

    def answer(self, cyc, r, m, resident, lru, q, recv):
        t, a, ln, x = r["op"]
        bad = lambda n, s="": self.bad.append((cyc, n, f"{r['op']} {s}"))
        d = int(m.data)
        if int(m.type_) != t or int(m.opaque) != r["opq"] or int(m.len) != ln:
            bad("response header", f"type {m.type_} opaque {m.opaque} len {m.len}")
        rw, line, n = t in (READ, WRITE), a // self.lb, self.size(r["op"])
        if int(m.test) != int(rw and not r["rd"]):
            bad("test bit", f"test={int(m.test)} fetches={r['rd']}")
        if rw and r["wr"] and not r["rd"]:
            bad("write-back on a hit")
        if rw and line not in resident and not r["rd"]:
            bad("hit on a line that cannot be cached")
        if t == READ:
            for k in range(n):
                if a + k not in self.X and (d >> (8 * k)) & 255 != self.client(a + k):
                    bad("read data", f"byte {a + k:#x}: {(d >> (8 * k)) & 255:#x} not {self.client(a + k):#x}")
            if d >> (8 * n):
                bad("read data not zero-extended", hex(d))
        if t in (WRITE, INV, FLUSH) and d:
            bad("response data not 0", hex(d))
        if 3 <= t <= 11 and d != r.get("old"):
            bad("AMO result", f"{d:#x} not {r.get('old')}")
        if t == FLUSH:
            if self.dirty:
                bad("FLUSH left words unwritten", hex(min(self.dirty)))
            if q and not (len(q) == 1 and recv):
                bad("FLUSH answered with memory traffic in flight")
        if t == WRITE:
            for k in range(n):
                self.B[a + k] = (x >> (8 * k)) & 255
                self.X.discard(a + k)
            for w in range(a // 4, (a + n - 1) // 4 + 1):
                for k in range(4):
                    self.B.setdefault(4 * w + k, self.get(4 * w + k))
                    self.dirty.add(4 * w + k)
        if rw:
            if lru.get(line, (False, None))[0] and r["rd"]:
                bad("recently used line missed")
            resident.add(line)
            for l, (p, o) in list(lru.items()):
                if l != line and l % self.nsets == line % self.nsets:
                    lru[l] = (p and self.assoc > 1 and o in (None, line), line)
            lru[line] = (True, None)
        if t == INV:
            resident.clear()
            lru.clear()
            self.B = {b: v for b, v in self.B.items() if b in self.dirty}
            self.X &= self.dirty
        if 3 <= t <= 11:
            resident.discard(line)
            lru.pop(line, None)
            for k in range(4):
                self.B.pop(a + k, None)
                self.X.discard(a + k)
        self.log.append((r["op"], d, int(m.test), r["at"], cyc, (r["rd"], r["wr"])))


def report(bad, n=8):
    for b in bad[:n]:
        print("cycle %d: %s: %s" % tuple(b))
    print("FAIL" if bad else "ok")
    return 1 if bad else 0


def timing(seed):
    """memory latencies and ready patterns for TB.run; 0: everything at once"""
    if seed == 0:
        return {}
    r = random.Random(seed)
    lat = [r.choice([0, 1, 1, 2, 5]) for _ in range(97)]
    p1, p2 = r.choice([1, .5, .8]), r.choice([1, .5, .8])
    a = [r.random() < p1 for _ in range(193)]
    b = [r.random() < p2 for _ in range(191)]
    return dict(mem_lat=lambda k: lat[k % 97], resp_rdy=lambda c: a[c % 193], mem_rdy=lambda c: b[c % 191])
