"""Replays a recorded stimulus on the real PyMTL simulation of BlockingCacheRTL
and judges it with a scoreboard written directly from the property statements
(byte-level, whole address space, independent of the ghost terms).

usage: python -m vc.replay FILE   (from /verif)
"""
import json
import sys

from . import env  # noqa: F401
from .cache import Config, READ, WRITE, INV, FLUSH, AMO_LO, AMO_HI, log2
from .cachesim import amo


class Illegal(Exception):
    """the stimulus breaks the environment contract on the real design"""


class Board:
    def __init__(self, cfg):
        self.cfg = cfg
        self.lb = cfg.line // 8
        self.nsets = cfg.nbytes // self.lb // cfg.assoc
        self.dwb = cfg.data // 8
        self.init = {}
        self.found = []         # (cycle, check, text)
        self.mem = {}
        self.reset()

    # bytes are ints, or ("init", a) while memory's first content is unknown
    def mget(self, a):
        if a not in self.mem:
            self.mem[a] = ("init", a)
        return self.mem[a]

    def bind(self, a, v):
        t = self.mget(a)
        if isinstance(t, tuple):
            if t in self.init:
                return self.init[t] == v
            self.init[t] = v
            return True
        return t == v

    def val(self, t):
        return self.init.get(t, t) if isinstance(t, tuple) else t

    def same(self, t, v):
        t = self.val(t)
        return True if isinstance(t, tuple) else t == v

    def reset(self):
        self.B, self.D, self.X = {}, set(), set()
        self.e, self.q = [], []
        self.rdq = self.wbs = False
        self.rdv = None
        self.AO = {}
        self.resident = set()       # lines accessed since reset/INV/AMO
        self.lru = {}               # line -> (promised, other or None)
        self.wait = self.idle = self.up = 0

    def client(self, a):
        return self.B.get(a, None) if a in self.B else self.mget(a)

    def bad(self, cyc, name, text):
        self.found.append((cyc, name, text))

    def size(self, e):
        full = self.dwb
        if e["type"] == WRITE and self.cfg.data == 32 and e["len"] == 3:
            return 8
        return e["len"] or full

    def legal(self, e):
        t, n, a = e["type"], e["len"], e["addr"]
        s = self.size(e)
        if t in (INV, FLUSH):
            return True
        if AMO_LO <= t <= AMO_HI:
            return n == (0 if self.cfg.data == 32 else 4) and a % 4 == 0
        if t not in (READ, WRITE):
            return False
        if s & (s - 1) or (s > self.dwb and not (t == WRITE and self.cfg.data == 32 and n == 3 and self.lb >= 8)):
            return False
        return a % s == 0

    def cycle(self, cyc, i, o):
        """i: inputs, o: outputs of this cycle (dicts)"""
        lb = self.lb
        if i["reset"]:
            # what memory holds is what the client sees from now on
            self.reset()
            return
        bad = lambda n, t: self.bad(cyc, n, t)
        if i["ext"]:
            a = self.A
            self.mem[a] = i["extv"]
            if a not in self.D:
                self.X.add(a)
        # memory response first: it was requested earlier
        q, e = self.q, self.e
        counted = bool(i["cresp_rdy"] and i["mreq_rdy"] and not q)
        if e and counted and not o["creq_rdy"]:
            e[-1]["blk"] += 1
        if o["mreq_en"] and e:
            r = e[0]
            if o["mreq_type_"] != WRITE and r["age"] > 1 + r["nwb"]:
                bad("request_to_memory_latency", f"memory request only after {r['age']} cycles")
            if o["mreq_type_"] == WRITE and r["type"] != FLUSH and r["age"] > 1:
                bad("writeback_latency", f"write-back only after {r['age']} cycles")
            r["nwb"] += o["mreq_type_"] == WRITE
        if not e and not o["creq_rdy"] and self.up >= self.nsets * self.cfg.assoc:
            bad("init_latency", f"not ready {self.up} cycles after reset")
        self.up += 1
        before = list(e)
        self.outst = bool(q) or bool(o["mreq_en"])
        if q and not o["mresp_rdy"]:
            bad("mresp_always_taken", "memory response refused while one is outstanding")
        recv = None
        if i["mresp_en"]:
            if not q:
                raise Illegal(f"cycle {cyc}: memory response without request")
            recv = q[0]
            if recv["type"] != i["mresp_type_"]:
                raise Illegal(f"cycle {cyc}: memory response type")
            if recv["type"] == READ:
                for k in range(lb):
                    if not self.bind(recv["addr"] // lb * lb + k, (i["mresp_data"] >> (8 * k)) & 255):
                        raise Illegal(f"cycle {cyc}: memory returned something else than it holds")
            elif AMO_LO <= recv["type"] <= AMO_HI:
                pass
        # request to memory
        if o["mreq_en"]:
            t, a, m, d = o["mreq_type_"], o["mreq_addr"], o["mreq_wr_mask"], o["mreq_data"]
            line = a // lb
            r = e[0] if e else None
            if not i["mreq_rdy"]:
                bad("mreq_en_only_if_rdy", "memory request while memory is not ready")
            if len(q) - (recv is not None) >= 2:
                bad("at_most_two_outstanding", "third memory request in flight")
            ramo = r is not None and AMO_LO <= r["type"] <= AMO_HI
            if t not in (READ, WRITE) and not AMO_LO <= t <= AMO_HI:
                bad("mreq_kind", f"memory request of type {t}")
            if t in (READ, WRITE) and (a % lb or o["mreq_len"]):
                bad("mreq_line_shape", f"READ/WRITE of addr {a:#x} len {o['mreq_len']} is not one whole line")
            if r is not None and r["type"] == INV:
                bad("inv_silent", "memory request on behalf of INV")
            if t == READ:
                if r is None or r["type"] not in (READ, WRITE) or self.rdq or r["addr"] // lb != line:
                    bad("read_is_for_request", f"refill of line {line:#x} that no pending request needs")
                if self.lru.get(line, (False, None))[0]:
                    bad("lru_no_refetch", f"line {line:#x} fetched again although it was among the most recently used")
                self.rdq = True
            if t == WRITE:
                if m == 0:
                    bad("wb_nonempty_mask", "write-back with an empty mask")
                if r is None or r["type"] == INV or self.rdq:
                    bad("write_is_for_miss_or_flush", "write-back that no pending request needs")
                if r is not None and r["type"] in (READ, WRITE) and line % self.nsets != r["addr"] // lb % self.nsets:
                    bad("evict_own_set", f"line {line:#x} evicted for an access to another set")
                if ramo and line != r["addr"] // lb:
                    bad("amo_evicts_own_line", f"AMO at {r['addr']:#x} writes back line {line:#x}")
                if self.wbs and r is not None and r["type"] != FLUSH:
                    bad("one_writeback", "second write-back for one request")
                self.wbs = True
                for k in range(lb):
                    if not (m >> (k // 4)) & 1:
                        continue
                    b, v = line * lb + k, (d >> (8 * k)) & 255
                    w = b // 4
                    if w not in {x // 4 for x in self.D}:
                        bad("wb_only_dirty", f"byte {b:#x} written back although its word was never written")
                    if b not in self.X and not self.same(self.client(b), v):
                        bad("wb_data", f"byte {b:#x} written back as {v:#x}, not {self.client(b)}")
                    self.mem[b] = v
                self.D -= {line * lb + k for k in range(lb) if (m >> (k // 4)) & 1}
            if AMO_LO <= t <= AMO_HI:
                if r is None or self.rdq or t != r["type"] or a != r["addr"] or o["mreq_opaque"] != r["opq"]:
                    bad("amo_is_for_request", f"AMO type {t} addr {a:#x} does not match the pending request")
                if o["mreq_len"] != 4 % (1 << log2(lb)) or (r is not None and (d ^ r["data"]) & 0xffffffff):
                    bad("amo_operand", f"AMO forwarded with len {o['mreq_len']} data {d & 0xffffffff:#x}")
                w = a & ~3
                for k in range(4):
                    b = w + k
                    if b in self.D or (b not in self.X and self.val(self.mget(b)) != self.val(self.client(b))):
                        bad("amo_after_writeback", f"AMO sent while the newest byte {b:#x} is only in the cache")
                self.rdq = True
                self.AO = {w + k: self.mget(w + k) for k in range(4)}
                # the operation itself needs the old value: from the answer
                self.amo_pend = (w, t, d & 0xffffffff)
                old = self.amo_old.get(cyc)
                if old is not None:
                    for k in range(4):
                        if not self.bind(w + k, (old >> (8 * k)) & 255):
                            raise Illegal(f"cycle {cyc}: AMO answer is not what memory held")
                    nv = amo(t, old, d & 0xffffffff)
                    for k in range(4):
                        self.mem[w + k] = (nv >> (8 * k)) & 255
                else:
                    for k in range(4):
                        self.mem[w + k] = ("amo", cyc, w + k)
            q.append(dict(type=t, addr=a))
        if recv is not None:
            q.remove(recv)
        # response
        popped = False
        if o["cresp_en"]:
            popped = True
            if not i["cresp_rdy"]:
                bad("resp_en_only_if_rdy", "response while the client is not ready")
            if not e:
                bad("resp_pending", "response without a pending request")
            else:
                if self.outst:
                    bad("answer_after_memory", "response while a memory request is outstanding")
                self.answer(cyc, e[0], i, o)
                e.pop(0)
                self.rdq = self.wbs = False
        if i["creq_en"]:
            if not o["creq_rdy"]:
                raise Illegal(f"cycle {cyc}: request while not ready")
            if len(e) >= 2:
                bad("accept_room", "third request accepted")
            r = dict(type=i["creq_type_"], opq=i["creq_opaque"], addr=i["creq_addr"],
                     len=i["creq_len"], data=i["creq_data"], age=0, blk=0, nwb=0)
            if not self.legal(r):
                raise Illegal(f"cycle {cyc}: illegal request {r}")
            e.append(r)
        for r in before:
            r["age"] += counted
        # progress
        n = self.nsets * self.cfg.assoc
        free = i["cresp_rdy"] and i["mreq_rdy"] and (not q or i["mresp_en"])
        self.wait = 0 if popped or not e else self.wait + (1 if free else 0)
        self.idle = 0 if e or o["creq_rdy"] else self.idle + 1
        if self.wait > 6 * n + 50:
            bad("watchdog", f"no answer after {self.wait} cycles in which neither side held the cache up")
        if self.idle > n + 30:
            bad("watchdog", "idle but never ready for a request")

    def answer(self, cyc, r, i, o):
        bad = lambda n, t: self.bad(cyc, n, t)
        t, a, lb = r["type"], r["addr"], self.lb
        ramo = AMO_LO <= t <= AMO_HI
        rw = t in (READ, WRITE)
        line = a // lb
        for f, k in (("type", "type_"), ("opq", "opaque"), ("len", "len")):
            if o["cresp_" + k] != r[f]:
                bad("resp_" + {"opq": "opaque"}.get(f, f), f"response {k} {o['cresp_' + k]:#x}, request had {r[f]:#x}")
        d = o["cresp_data"]
        if t in (WRITE, INV, FLUSH) and d:
            bad("resp_no_data", f"response data {d:#x}")
        n = self.size(r)
        if t == READ:
            for k in range(n):
                b = a + k
                if b not in self.X and not self.same(self.client(b), (d >> (8 * k)) & 255):
                    bad("read_data", f"read of {b:#x} returned {(d >> (8 * k)) & 255:#x}, newest is {self.val(self.client(b))}")
            if d >> (8 * n):
                bad("read_zero_extend", f"bits above the {n} bytes read: {d:#x}")
        if ramo:
            if not self.rdq:
                bad("amo_forwarded", "AMO answered without reaching memory")
            for k in range(4):
                b = (a & ~3) + k
                if b in self.AO and not self.same(self.AO[b], (d >> (8 * k)) & 255):
                    bad("amo_result", f"AMO returned {d:#x}")
            if d >> 32:
                bad("amo_zero_extend", f"AMO returned {d:#x}")
        N, age, nwb = self.nsets * self.cfg.assoc, r["age"], r["nwb"]
        late = lambda k, lim: age > lim and bad(k, f"answered only after {age} cycles, more than {lim}")
        if rw and not self.rdq:
            late("hit_latency", 1)
            if r["blk"] > (t == WRITE):
                bad("write_hit_blocks_once" if t == WRITE else "read_hit_never_blocks",
                    f"refused requests for {r['blk']} cycles after a hit")
        elif rw:
            late("miss_latency", 5 + nwb)
        elif ramo:
            late("amo_latency", 4 + nwb)
        elif t == INV:
            late("inv_latency", N + 2)
        elif t == FLUSH:
            late("flush_latency", N + 2 + 3 * nwb)
        if t == FLUSH:
            for b in list(self.B):
                if b in self.D or (b not in self.X and self.val(self.mget(b)) != self.val(self.B[b])):
                    bad("flush_clean", f"byte {b:#x} not in memory after FLUSH")
            if self.q:
                bad("no_pending_memory_at_flush", "FLUSH answered with memory traffic in flight")
        if o["cresp_test"] != int(rw and not self.rdq):
            bad("test_bit", f"test={o['cresp_test']} but {'a memory request' if self.rdq else 'no refill'} was needed")
        if rw:
            if self.wbs and not self.rdq:
                bad("hit_no_writeback", "a hit caused a write-back")
            if line not in self.resident and not self.rdq:
                bad("gone_line_refetched", f"line {line:#x} hit although it cannot be in the cache")
            if self.lru.get(line, (False, None))[0] and self.rdq:
                bad("lru_hit", f"line {line:#x} missed although it was among the most recently used")
            self.resident.add(line)
            for l, (p, oth) in list(self.lru.items()):
                if l == line or l % self.nsets != line % self.nsets:
                    continue
                if self.cfg.assoc == 1 or (oth is not None and oth != line):
                    p = False
                self.lru[l] = (p, line)
            self.lru[line] = (True, None)
        if t == WRITE:
            for k in range(n):
                self.B[a + k] = (r["data"] >> (8 * k)) & 255 if 8 * k < self.cfg.data else 0
                self.X.discard(a + k)
            for w in range(a // 4, (a + n - 1) // 4 + 1):
                for k in range(4):
                    if 4 * w + k not in self.D:
                        self.B.setdefault(4 * w + k, self.mget(4 * w + k))
                    self.D.add(4 * w + k)
        if t == INV:
            for b in list(self.B):
                if b not in self.D:
                    del self.B[b]
            self.X &= self.D
            self.resident.clear()
            self.lru.clear()
        if ramo:
            for k in range(4):
                self.B.pop((a & ~3) + k, None)
                self.X.discard((a & ~3) + k)
            self.resident.discard(line)
            self.lru.pop(line, None)


FIELDS = ["reset", "creq_en", "creq_type_", "creq_opaque", "creq_addr", "creq_len", "creq_data",
          "cresp_rdy", "mreq_rdy", "mresp_en", "mresp_type_", "mresp_opaque", "mresp_data", "ext", "extv"]


def replay(cfg, A, trace, log=None):
    """-> (violations, error text or None)"""
    from pymtl3 import DefaultPassGroup
    dut = cfg.make()
    dut.apply(DefaultPassGroup())
    rows = [dict(zip(FIELDS, t)) for t in trace]
    outs = []
    err = None
    for cyc, i in enumerate(rows):
        try:
            outs.append(drive(dut, i))
        except Exception as x:      # noqa: BLE001
            err = (cyc, f"{type(x).__name__}: {x}")
            break
    found, illegal = judge(cfg, A, rows, outs, err, log)
    return found + after_reset(cfg, rows, outs), illegal


def after_reset(cfg, rows, outs):
    """P11: from the last reset on, the cache behaves as a new one would"""
    from pymtl3 import DefaultPassGroup
    r = [k for k, i in enumerate(rows[:len(outs)]) if i["reset"] and k and not rows[k - 1]["reset"]]
    if not r:
        return []
    dut = cfg.make()
    dut.apply(DefaultPassGroup())
    for k in range(r[-1], len(outs)):
        try:
            o = drive(dut, rows[k])
        except Exception:       # noqa: BLE001
            return []
        a, b = visible(o), visible(outs[k])
        if a != b and not rows[k]["reset"]:
            d = sorted(n for n in set(a) | set(b) if a.get(n) != b.get(n))[0]
            return [(k, "reset_forgets", f"{d} is {b.get(d)} after the reset of cycle {r[-1]}, {a.get(d)} in a new cache")]
    return []


def visible(o):
    return {n: v for n, v in o.items() if not (n.startswith("cresp_") and not o["cresp_en"])
            and not (n.startswith("mreq_") and not o["mreq_en"]) or n in ("cresp_en", "mreq_en")}


def put_inputs(dut, i):
    mi, ma = dut.mem_minion_ifc, dut.mem_master_ifc
    dut.reset @= i["reset"]
    mi.req.en @= i["creq_en"]
    m = mi.req.msg
    m.type_ @= i["creq_type_"]
    m.opaque @= i["creq_opaque"]
    m.addr @= i["creq_addr"]
    m.len @= i["creq_len"]
    m.data @= i["creq_data"]
    mi.resp.rdy @= i["cresp_rdy"]
    ma.req.rdy @= i["mreq_rdy"]
    ma.resp.en @= i["mresp_en"]
    m = ma.resp.msg
    m.type_ @= i["mresp_type_"]
    m.opaque @= i["mresp_opaque"]
    m.data @= i["mresp_data"]


def get_outputs(dut):
    mi, ma = dut.mem_minion_ifc, dut.mem_master_ifc
    o = dict(creq_rdy=int(mi.req.rdy), cresp_en=int(mi.resp.en), mreq_en=int(ma.req.en),
             mresp_rdy=int(ma.resp.rdy))
    for f in ("type_", "opaque", "test", "len", "data"):
        o["cresp_" + f] = int(getattr(mi.resp.msg, f))
    for f in ("type_", "opaque", "addr", "len", "wr_mask", "data"):
        o["mreq_" + f] = int(getattr(ma.req.msg, f))
    return o


def drive(dut, i):
    """one clock cycle of the real simulation"""
    put_inputs(dut, i)
    dut.sim_eval_combinational()
    o = get_outputs(dut)
    dut.sim_tick()
    return o


def judge(cfg, A, rows, outs, err=None, log=None):
    b = Board(cfg)
    b.A = A
    # old values of AMOs, known from the answers in the trace
    b.amo_old = {}
    q = []
    for cyc, (i, o) in enumerate(zip(rows, outs)):
        if i["reset"]:
            q = []
            continue
        if i["mresp_en"] and q:
            c0, t = q.pop(0)
            if AMO_LO <= t <= AMO_HI:
                b.amo_old[c0] = i["mresp_data"] & 0xffffffff
        if o["mreq_en"]:
            q.append((cyc, o["mreq_type_"]))
    illegal = None
    for cyc, (i, o) in enumerate(zip(rows, outs)):
        try:
            b.cycle(cyc, i, o)
        except Illegal as x:
            illegal = str(x)
            break
        if log:
            log(cyc, i, o)
    if err:
        b.bad(err[0], "exception", err[1])
    return b.found, illegal


def show(cyc, i, o):
    s = []
    if i["reset"]:
        s.append("reset")
    if i["creq_en"]:
        s.append(f"req t={i['creq_type_']} opq={i['creq_opaque']:#x} addr={i['creq_addr']:#x} len={i['creq_len']} data={i['creq_data']:#x}")
    if i["mresp_en"]:
        s.append(f"memresp t={i['mresp_type_']} data={i['mresp_data']:#x}")
    if o["mreq_en"]:
        s.append(f"MEMREQ t={o['mreq_type_']} addr={o['mreq_addr']:#x} mask={o['mreq_wr_mask']:#x} data={o['mreq_data']:#x}")
    if o["cresp_en"]:
        s.append(f"RESP t={o['cresp_type_']} opq={o['cresp_opaque']:#x} test={o['cresp_test']} len={o['cresp_len']} data={o['cresp_data']:#x}")
    if i["ext"]:
        s.append(f"other agent writes {i['extv']:#x}")
    if s:
        print(f"{cyc:5d} {'-' if not i['cresp_rdy'] else ' '}{'-' if not i['mreq_rdy'] else ' '}", "; ".join(s))


def main():
    j = json.load(open(sys.argv[1]))
    if "trace" not in j:
        print(json.dumps(j, indent=1)[:5000])
        return 0
    cfg = Config(**j["config"])
    found, illegal = replay(cfg, int(j["A"], 16), [[int(x, 16) for x in r] for r in j["trace"]], show)
    if illegal:
        print("stimulus not applicable to this tree:", illegal)
    for f in found[:20]:
        print("cycle %d: %s: %s" % f)
    return 1 if found else 0


if __name__ == "__main__":
    sys.exit(main())
