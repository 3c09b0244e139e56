"""Caches sharing one memory: a lemma over the contract of a single cache.

Each cache appears only through its contract: the ghost transition relation of
cache.py (the same code the proof of the real design uses) with arbitrary port
events that satisfy the checks proved of the design.  Between them stands one
memory that performs each port's requests in order, each at some moment between
request and answer.  Watched is one arbitrary byte A and its word.

Discipline assumed of the programs (the README's software coherence, per
32-bit word):
  * a WRITE touching the word is sent only if no other cache has unflushed
    writes of it or an AMO on it under way; unless it covers A, only if the
    writer's view of A is current
  * an AMO on the word is sent only if no other cache has unflushed writes of it
Ghost state of the lemma:
  L        value last written to A by any cache (WRITE: when answered; AMO: when
           performed)
  own[i]   cache i sent a WRITE touching the word and no FLUSH was answered since
  stale[i] another cache wrote A since cache i last had to look: cleared by INV
           answered while no other cache owns the word, by an own WRITE or AMO
Steps (interleaved; a cycle in which several things happen is several steps):
  perform(i, k)  memory performs the k-th outstanding request of cache i
  port(i)        one cycle of cache i at its ports
"""
import time

from . import env  # noqa: F401
from . import term as tm
from .cache import Cache, Config, AND, OR, NOT, EQ, IMP, ITE, C, V, EXT, READ, WRITE, INV, FLUSH, log2


# what the lemma takes from the contract of a single cache
USED = ["resp_pending", "answer_after_memory", "read_data", "wb_only_dirty", "wb_data", "mreq_kind",
        "read_is_for_request", "amo_is_for_request", "amo_after_writeback", "write_is_for_miss_or_flush",
        "mresp_always_taken", "at_most_two_outstanding", "amo_result", "amo_forwarded", "flush_clean",
        "accept_room"]


class SpecCache(Cache):
    """the contract alone: every port signal is an arbitrary value"""

    def __init__(self, cfg):    # noqa: super().__init__ builds the design
        self.cfg, self.timing = cfg, False
        self.nlines = cfg.nbytes * 8 // cfg.line
        self.nsets = self.nlines // cfg.assoc
        self.aw, self.dw, self.lb = cfg.addr, cfg.data, cfg.line // 8
        self.offw, self.idxw = log2(self.lb), log2(self.nsets)
        self.tagw = self.aw - self.offw - self.idxw
        self.lenw, self.mlenw, self.nw = log2(self.dw // 8), log2(self.lb), cfg.line // 32
        self.A = V("A", self.aw)
        self.Aoff = EXT(self.A, 0, self.offw)
        self.Aidx = EXT(self.A, self.offw, self.offw + self.idxw)
        self.Aline = EXT(self.A, self.offw, self.aw)
        self.Aword = EXT(self.A, 2, self.offw)
        self.state, self.nxt, self.inputs = {}, {}, {}
        self.env, self.checks, self.live, self.init_ghost = {}, {}, {}, []
        w = dict(en=1, rdy=1, type_=4, opaque=cfg.opq, addr=self.aw, test=2)
        self.p = {}
        for a in ("creq", "cresp", "mreq", "mresp"):
            for f in ("en", "rdy", "type_", "opaque", "addr", "len", "data", "test", "wr_mask"):
                n = w.get(f) or {"len": (self.lenw, self.mlenw), "data": (self.dw, cfg.line),
                                 "wr_mask": (1, self.nw)}[f][a[0] == "m"]
                self.p[f"{a}_{f}"] = V(("port", a, f), n)
        self.ghost()


class Step:
    """one interleaving step: next-state map, hypotheses, claims"""

    def __init__(self, name):
        self.name, self.nxt, self.hyps, self.claims = name, {}, [], {}


class World:
    def __init__(self, cfg, n, used=None):
        self.n, self.spec, self.used = n, SpecCache(cfg), used or USED
        c = self.c = self.spec
        self.inst = []
        self.vars = {}
        for i in range(n):
            m = {}
            for t in list(c.nxt.values()) + list(c.checks.values()) + list(c.env.values()) + list(c.init_ghost):
                for x in tm.topo([t]):
                    if x.op == "v" and x.p != "A":
                        m[x.p] = V((i,) + (x.p if isinstance(x.p, tuple) else (x.p,)), x.w)
            for p, v in c.state.items():
                if p != "A":
                    m.setdefault(p, V((i,) + p, v.w))
            self.inst.append(m)
        self.v = lambda nm, w: self.vars.setdefault(nm, V(("world",) + (nm if isinstance(nm, tuple) else (nm,)), w))
        self.Mem, self.L = self.v("Mem", 8), self.v("L", 8)
        self.own = [self.v(("own", i), 1) for i in range(n)]
        self.stale = [self.v(("stale", i), 1) for i in range(n)]
        self.pf = [[self.v(("pf", i, k), 1) for k in range(2)] for i in range(n)]
        self.wv = [[self.v(("wv", i, k), 1) for k in range(2)] for i in range(n)]
        self.val = [[self.v(("val", i, k), 8) for k in range(2)] for i in range(n)]
        self.cap = [[self.v(("cap", i, k), 8) for k in range(2)] for i in range(n)]
        self.inv = self.invariants()
        self.steps = [self.port(i) for i in range(n)] + [self.perform(i, k) for i in range(n) for k in range(2)]

    def at(self, i, t, extra=None):
        m = dict(self.inst[i])
        if extra:
            m.update(extra)
        return tm.subst(t, m, {})

    def g(self, i, name):
        return self.at(i, self.c.G[name])

    def e(self, i, k):
        return {f: self.at(i, x) for f, x in self.c.e[k].items()}

    def q(self, i, k):
        return {f: self.at(i, x) for f, x in self.c.q[k].items()}

    # ------------------------------------------------------------ predicates
    def wr(self, e):
        """a WRITE touching A's word is in this place of the queue"""
        return AND(e["v"], EQ(e["type"], C(WRITE, 4)), self.c.covers_word(e["type"], e["len"], e["addr"]))

    def wrA(self, e):
        return AND(e["v"], EQ(e["type"], C(WRITE, 4)), self.c.covers(e["type"], e["len"], e["addr"]))

    def amo(self, e):
        return AND(e["v"], self.c.is_amo(e["type"]), EQ(EXT(e["addr"], 2, self.c.aw), EXT(self.c.A, 2, self.c.aw)))

    def amo_flight(self, i):
        return OR(self.amo(self.e(i, 0)), self.amo(self.e(i, 1)))

    def wr_flight(self, i):
        return OR(self.wr(self.e(i, 0)), self.wr(self.e(i, 1)))

    def kinds(self, i, k):
        q = self.q(i, k)
        un = AND(q["v"], NOT(self.pf[i][k]))
        w = AND(EQ(q["type"], C(WRITE, 4)), self.wv[i][k])
        a = AND(self.c.is_amo(q["type"]), q["aw"])
        r = AND(EQ(q["type"], C(READ, 4)), EQ(q["line"], self.c.Aline))
        return q, un, w, a, r

    def desired(self, i, mem, pf):
        """what cache i may take memory's value of A for: (value, unknown)"""
        _, _, w0, a0, _ = self.kinds(i, 0)
        _, _, w1, a1, _ = self.kinds(i, 1)
        u0 = AND(self.q(i, 0)["v"], NOT(pf[0]))
        u1 = AND(self.q(i, 1)["v"], NOT(pf[1]))
        val = ITE(AND(u1, w1), self.val[i][1], ITE(AND(u0, w0), self.val[i][0], mem))
        return val, OR(AND(u1, a1), AND(u0, a0))

    # ------------------------------------------------------------ invariants
    def invariants(self):
        I = {}
        n, Mem, L, own, stale = self.n, self.Mem, self.L, self.own, self.stale
        for i in range(n):
            e, q = [self.e(i, k) for k in range(2)], [self.q(i, k) for k in range(2)]
            B, M, D, X = (self.g(i, x) for x in ("B", "M", "D", "X"))
            I[f"order{i}"] = AND(IMP(q[1]["v"], q[0]["v"]), IMP(e[1]["v"], e[0]["v"]),
                                 IMP(AND(q[1]["v"], self.pf[i][1]), self.pf[i][0]))
            val, unk = self.desired(i, Mem, self.pf[i])
            I[f"view{i}"] = OR(unk, EQ(M, val))
            I[f"fresh{i}"] = IMP(NOT(stale[i]), AND(NOT(X), EQ(B, L)))
            I[f"owner_writes{i}"] = IMP(OR(D, self.wr_flight(i)), own[i])
            for j in range(i):
                I[f"one_owner{i}{j}"] = NOT(AND(own[i], own[j]))
            perf = OR(*[AND(self.kinds(i, k)[0]["v"], self.pf[i][k], self.kinds(i, k)[3]) for k in range(2)])
            # an owner's view is current, or will be before its next write counts
            first = OR(self.wrA(e[0]), AND(NOT(self.wr(e[0])), self.wrA(e[1])))
            I[f"owner_fresh{i}"] = IMP(AND(own[i], stale[i]), OR(first, self.amo(e[0])))
            I[f"write_stale{i}"] = IMP(AND(stale[i], NOT(self.amo(e[0]))), AND(
                IMP(self.wr(e[0]), self.wrA(e[0])), IMP(AND(self.wr(e[1]), NOT(self.wrA(e[0]))), self.wrA(e[1]))))
            for k in range(2):
                qk, un, w, a, r = self.kinds(i, k)
                I[f"captured_read{i}{k}"] = IMP(AND(qk["v"], self.pf[i][k], r), OR(EQ(self.cap[i][k], M), X, D))
                I[f"captured_amo{i}{k}"] = IMP(AND(qk["v"], self.pf[i][k], a), EQ(self.cap[i][k], self.g(i, "AO")))
                I[f"amo_for_request{i}{k}"] = IMP(AND(qk["v"], a), AND(self.amo(e[0]), NOT(D)))
                I[f"pending_write{i}{k}"] = IMP(AND(un, w), AND(own[i], EQ(self.val[i][k], L),
                                                                e[0]["v"], NOT(AND(stale[i]))))
                I[f"for_request{i}{k}"] = IMP(qk["v"], AND(e[0]["v"], OR(
                    EQ(qk["type"], C(WRITE, 4)), AND(OR(EQ(qk["type"], C(READ, 4)), self.c.is_amo(qk["type"])),
                                                     self.g(i, "rdq")))))
            I[f"amo_last{i}"] = IMP(q[1]["v"], NOT(AND(self.c.is_amo(q[0]["type"]))))
            I[f"clean{i}"] = OR(D, X, EQ(B, M), AND(self.amo(e[0]), self.g(i, "rdq")))
            I[f"request_open{i}"] = IMP(self.g(i, "rdq"), e[0]["v"])
            I[f"dirty_fresh{i}"] = IMP(D, NOT(stale[i]))
            I[f"amo_done{i}"] = IMP(AND(self.amo(e[0]), self.g(i, "rdq")),
                                    OR(EQ(Mem, L), *[AND(self.kinds(i, k)[1], self.kinds(i, k)[3]) for k in range(2)]))
            for j in range(n):
                if j != i:
                    I[f"owner_silent{i}{j}"] = IMP(AND(own[i], NOT(stale[j])), EQ(Mem, L))
                    I[f"amo_no_owner{i}{j}"] = IMP(self.amo_flight(i), NOT(own[j]))
            I[f"reads_last{i}"] = IMP(AND(q[1]["v"]), NOT(EQ(q[0]["type"], C(READ, 4))))
            # what an AMO will find
            for k in range(2):
                qk, un, w, a, r = self.kinds(i, k)
                q0k = self.kinds(i, 0)
                before = ITE(AND(C(k, 1), q0k[1], q0k[2]), self.val[i][0], Mem) if k else Mem
                I[f"amo_finds{i}{k}"] = IMP(AND(un, a), EQ(before, L))
        for i in range(n):
            pend = [AND(self.kinds(i, k)[1], self.kinds(i, k)[2]) for k in range(2)]
            I[f"memory_current{i}"] = OR(EQ(Mem, L), self.g(i, "D"), *pend, *[own[j] for j in range(n) if j != i])
        return I

    def init(self):
        h = []
        for i in range(self.n):
            h += [self.at(i, t) for t in self.c.init_ghost]
            h += [EQ(self.g(i, "M"), self.Mem), NOT(self.own[i]), NOT(self.stale[i])]
            h += [NOT(self.pf[i][k]) for k in range(2)]
        return h + [EQ(self.L, self.Mem)]

    # ----------------------------------------------------------------- steps
    def stutter(self, i, ext, extv, oldv):
        """contract step of cache i in which nothing happens at its ports"""
        z = {}
        for k, v in self.c.p.items():
            if v.op == "v":
                z[v.p] = C(0, v.w)
        m = {**self.inst[i], **z, ("env", "other_agent_writes"): ext, ("env", "other_agent_value"): extv,
             ("env", "amo_old_value"): oldv}
        return {self.inst[i][p].p: tm.subst(t, m, {}) for p, t in self.c.nxt.items() if p != "A"}

    def keep(self, s):
        for v in self.vars.values():
            s.nxt.setdefault(v.p, v)
        for m in self.inst:
            for p in self.c.nxt:
                if p != "A":
                    s.nxt.setdefault(m[p].p, m[p])

    def perform(self, i, k):
        s = Step(f"memory performs request {k} of cache {i}")
        q, un, w, a, r = self.kinds(i, k)
        new = V(("world", "amo_new"), 8)
        s.hyps = [un] + ([self.pf[i][0]] if k else [])
        mem = ITE(w, self.val[i][k], ITE(a, new, self.Mem))
        s.claims[f"AMO of cache {i} finds the newest value ({k})"] = IMP(a, EQ(self.Mem, self.L))
        s.nxt[self.Mem.p] = mem
        s.nxt[self.pf[i][k].p] = tm.TRUE
        s.nxt[self.cap[i][k].p] = self.Mem
        s.nxt[self.L.p] = ITE(a, new, self.L)
        for j in range(self.n):
            s.nxt[self.stale[j].p] = OR(self.stale[j], a)
            pf = list(self.pf[j])
            if j == i:
                pf[k] = tm.TRUE
            val, unk = self.desired(j, mem, pf)
            ext = AND(NOT(unk), tm.ne(self.g(j, "M"), val))
            old = self.g(j, "AO")
            if j == i:
                ext = OR(ext, AND(a, tm.ne(old, self.Mem)))
                old = ITE(a, self.Mem, old)
            s.nxt.update(self.stutter(j, ext, val, old))
        self.keep(s)
        return s

    def port(self, i):
        c, n = self.c, self.n
        s = Step(f"cache {i} at its ports")
        z = {("env", "other_agent_writes"): tm.FALSE}
        f = lambda t: self.at(i, t, z)
        p = {k: f(t) for k, t in c.p.items()}
        acc, pop, send, recv = (f(c.ev[k]) for k in ("acc", "pop", "send", "recv"))
        e0, e1, q0 = self.e(i, 0), self.e(i, 1), self.q(i, 0)
        new = dict(v=acc, type=p["creq_type_"], len=p["creq_len"], addr=p["creq_addr"], data=p["creq_data"])
        nw, nwA, na = self.wr(new), self.wrA(new), self.amo(new)
        others = [j for j in range(n) if j != i]
        oo = OR(*[self.own[j] for j in others])
        # clients and programs
        client = [f(c.env["request only when ready"]), f(c.env["request is legal and aligned"]),
                  IMP(nw, AND(NOT(oo), NOT(OR(*[self.amo_flight(j) for j in others])),
                              OR(self.own[i], NOT(self.stale[i]), nwA))),
                  IMP(na, NOT(oo))]
        # memory
        memory = [IMP(recv, AND(q0["v"], self.pf[i][0], EQ(p["mresp_type_"], q0["type"]))),
                  IMP(AND(recv, self.kinds(i, 0)[4]), EQ(c.linebyte(p["mresp_data"]), self.cap[i][0])),
                  IMP(AND(recv, self.kinds(i, 0)[3]), EQ(c.bytesel(EXT(p["mresp_data"], 0, 32), EXT(c.A, 0, 2)),
                                                         self.cap[i][0])),
                  f(c.checks["mresp_always_taken"])]
        self.memory_contract = {}
        for k, t in c.env.items():
            if k.startswith("memory ") and "zero-extended" not in k:
                s.claims[f"{k} (cache {i})"] = (client + memory, f(t))
        s.hyps = client + memory + [f(c.checks[k]) for k in self.used]
        # ---- ghost of the lemma
        for pth, t in c.nxt.items():
            if pth != "A":
                s.nxt[self.inst[i][pth].p] = f(t)
        isw = EQ(p["mreq_type_"], C(WRITE, 4))
        mask = tm.FALSE
        for k in range(c.nw):
            mask = OR(mask, AND(EQ(c.Aword, C(k, c.Aword.w)), EXT(p["mreq_wr_mask"], k, k + 1)))
        hit = AND(isw, EQ(c.lineof(p["mreq_addr"]), c.Aline), mask)
        v0 = ITE(recv, self.q(i, 1)["v"], q0["v"])
        for arr, x in ((self.pf, tm.FALSE), (self.wv, hit), (self.val, c.linebyte(p["mreq_data"])),
                       (self.cap, C(0, 8))):
            a0, a1 = arr[i]
            p0 = ITE(recv, a1, a0)
            s.nxt[a0.p] = ITE(v0, p0, ITE(send, x, p0))
            s.nxt[a1.p] = ITE(AND(send, v0), x, a1)
        ty = lambda k: EQ(e0["type"], C(k, 4))
        popw = AND(pop, self.wrA(e0))
        s.nxt[self.L.p] = ITE(popw, c.wbyte(e0), self.L)
        fl = AND(pop, ty(FLUSH), NOT(self.wr(e1)))
        s.nxt[self.own[i].p] = OR(nw, AND(self.own[i], NOT(fl)))
        look = OR(AND(pop, ty(INV), NOT(oo)), popw, AND(pop, self.amo(e0)))
        s.nxt[self.stale[i].p] = AND(self.stale[i], NOT(look))
        for j in others:
            s.nxt[self.stale[j].p] = OR(self.stale[j], popw)
        cov = AND(ty(READ), c.covers(e0["type"], e0["len"], e0["addr"]))
        s.claims[f"READ of cache {i} returns the newest value"] = IMP(
            AND(pop, cov, NOT(self.stale[i])),
            EQ(c.bytesel(p["cresp_data"], c.lane(e0["type"], e0["len"])), self.L))
        s.claims[f"after FLUSH of cache {i} memory holds the newest value"] = IMP(
            AND(fl, NOT(oo), NOT(AND(pop, tm.FALSE))), EQ(self.Mem, self.L))
        s.claims[f"AMO of cache {i} returns what it found"] = IMP(
            AND(pop, self.amo(e0)),
            EQ(c.bytesel(EXT(p["cresp_data"], 0, 32), EXT(c.A, 0, 2)), self.g(i, "AO")))
        self.keep(s)
        return s

    # ----------------------------------------------------------- obligations
    def jobs(self):
        """(kind, name, hyps, goal)"""
        out = []
        inv = list(self.inv.values())
        for k, t in self.inv.items():
            out.append(("lemma", f"initially {k}", self.init(), t))
        for s in self.steps:
            cache = {}
            for k, t in self.inv.items():
                out.append(("lemma", f"{s.name}: {k}", inv + s.hyps, tm.subst(t, s.nxt, cache)))
            for k, t in s.claims.items():
                h = s.hyps
                if isinstance(t, tuple):
                    h, t = t
                out.append(("lemma", k, inv + h, t))
        return out


def scenario(w):
    """the discipline is not vacuous: cache 0 writes and flushes, cache 1
    invalidates and reads the new value.  -> hypotheses satisfiable together"""
    c = w.c
    st, hyps = {}, w.init()
    names = {s.name: s for s in w.steps}

    def go(step, n, *facts):
        s = names[step]
        ren = {}
        for t in list(s.nxt.values()) + s.hyps + list(facts):
            for x in tm.topo([t]):
                if x.op == "v" and x.p not in s.nxt and x.p != "A":
                    ren[x.p] = V(("step", n, x.p), x.w)
        m = {**ren, **st}
        cache = {}
        hyps.extend(tm.subst(t, m, cache) for t in list(s.hyps) + list(facts))
        new = {k: tm.subst(t, m, cache) for k, t in s.nxt.items()}
        st.clear()
        st.update(new)

    def port(i, n, on, *facts):
        z = {("env", "other_agent_writes"): tm.FALSE}
        f = lambda t: w.at(i, t, z)
        ev = {k: f(c.ev[k]) for k in ("acc", "pop", "send", "recv")}
        go(f"cache {i} at its ports", n, *[x if k in on else NOT(x) for k, x in ev.items()],
           *[x(f) for x in facts])

    P = c.p
    ty = lambda name, k: lambda f: EQ(f(P[name]), C(k, 4))
    atA = lambda f: EQ(f(P["creq_addr"]), c.A)
    k = iter(range(100))
    port(0, next(k), ["acc"], ty("creq_type_", WRITE), atA)
    port(0, next(k), ["send"], ty("mreq_type_", READ))
    go("memory performs request 0 of cache 0", next(k))
    port(0, next(k), ["recv"])
    port(0, next(k), ["pop"])
    port(0, next(k), ["acc"], ty("creq_type_", FLUSH))
    port(0, next(k), ["send"], ty("mreq_type_", WRITE))
    go("memory performs request 0 of cache 0", next(k))
    port(0, next(k), ["recv"])
    port(0, next(k), ["pop"])
    port(1, next(k), ["acc"], ty("creq_type_", INV))
    port(1, next(k), ["pop"])
    port(1, next(k), ["acc"], ty("creq_type_", READ), atA)
    port(1, next(k), ["send"], ty("mreq_type_", READ))
    go("memory performs request 0 of cache 1", next(k))
    port(1, next(k), ["recv"])
    hyps.append(NOT(tm.subst(w.stale[1], st, {})))
    hyps.append(tm.ne(tm.subst(w.L, st, {}), w.L))
    port(1, next(k), ["pop"])
    return hyps


def cover_jobs(cfg):
    from .runner import Job
    return [Job(cfg, "cover", "cache 1 READs what cache 0 wrote and flushed", scenario(World(cfg, 2)), tm.FALSE)]


if __name__ == "__main__":
    import sys
    from .prove import run_jobs
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 2
    w = World(Config(4096, 2), n)
    t = time.time()
    js = [(a, b, c, d, 120) for a, b, c, d in w.jobs()]
    rs = run_jobs(js, 2)
    bad = [(j[1], r) for j, r in zip(js, rs) if r[0] != "proved"]
    print(len(js), "obligations", len(bad), "open", round(time.time() - t, 1), "s")
    for nme, r in bad:
        print(nme, r[0])
    if bad and len(sys.argv) > 2:
        for nme, r in bad:
            if sys.argv[2] in nme and r[1]:
                print(nme, {k: hex(v) for k, v in sorted(r[1].items()) if v})
                break
