"""BlockingCacheRTL as a one-cycle transition system with ghost state.

The design part (registers, outputs) comes from the source on every run; the
ghost part below is the specification: what the cache's client and the memory
behind it may observe.  One byte of the address space, at the symbolic address
A, is watched; the proof is for every A at once.

Ghost state (never read by the design):
  e0, e1   requests accepted and not yet answered, oldest first
  q0, q1   memory requests sent and not yet answered, oldest first
  B        value the client must read at A (after every answered request)
  M        value memory holds at A
  D        A's word has been written through the cache since its last
           write-back (its newest value is only in the cache)
  X        another agent may have written A in memory since the cache last had
           to look: reads are unconstrained until INV / AMO / own write
  AO       old value of byte A returned by the AMO in flight
  rdq      a memory READ was sent for the request e0
  present  A's line must be in the cache (LRU promise), other: at most one
           different line of A's set used since (2-way)
"""
from . import env  # noqa: F401
from . import term as tm
from . import cuts
from .design import Design
from .sym import leafname

C, V = tm.const, tm.var
AND, OR, NOT, EQ, IMP, ITE = tm.andl, tm.orl, tm.not_, tm.eq, tm.implies, tm.ite
EXT = tm.extract

# request / response type codes a client sees on the wire: the documented
# encoding (mem_ifcs/MemMsg.py), restated here so that a changed code is seen
READ, WRITE, INIT, AMO_LO, AMO_HI, INV, FLUSH = 0, 1, 2, 3, 11, 14, 15


class Config:
    def __init__(self, nbytes, assoc, line=128, data=32, addr=32, opq=8):
        self.nbytes, self.assoc, self.line, self.data = nbytes, assoc, line, data
        self.addr, self.opq = addr, opq

    def __str__(self):
        return f"{self.nbytes}B_{self.assoc}way_line{self.line}_data{self.data}_addr{self.addr}"

    def types(self):
        from mem_ifcs.MemMsg import mk_mem_msg
        a = mk_mem_msg(self.opq, self.addr, self.data, has_wr_mask=False)
        b = mk_mem_msg(self.opq, self.addr, self.line)
        return a + b

    def make(self):
        from blocking_cache.BlockingCacheRTL import BlockingCacheRTL
        c = BlockingCacheRTL(*self.types(), self.nbytes, self.assoc)
        c.elaborate()
        return c


def log2(n):
    return n.bit_length() - 1


def sum_terms(*x):
    r = x[0]
    for t in x[1:]:
        r = tm.add(r, t)
    return r


class Cache:
    """Design + ghost.  state: var name -> var; nxt: var name -> next term;
    inputs: var name -> var; env: assumptions; checks: name -> term."""

    def __init__(self, cfg, timing=False):
        self.cfg, self.timing = cfg, timing
        self.nlines = cfg.nbytes * 8 // cfg.line
        self.nsets = self.nlines // cfg.assoc
        self.aw, self.dw, self.lb = cfg.addr, cfg.data, cfg.line // 8
        self.offw = log2(self.lb)
        self.idxw = log2(self.nsets)
        self.tagw = self.aw - self.offw - self.idxw
        self.lenw = log2(self.dw // 8)
        self.mlenw = log2(self.lb)
        self.nw = cfg.line // 32
        self.top = cfg.make()
        dp = self.top.cacheDpath
        self.A = V("A", self.aw)
        self.Aoff = EXT(self.A, 0, self.offw)
        self.Aidx = EXT(self.A, self.offw, self.offw + self.idxw)
        self.Atag = EXT(self.A, self.offw + self.idxw, self.aw)
        self.Aline = EXT(self.A, self.offw, self.aw)
        self.Aword = EXT(self.A, 2, self.offw)          # word within the line
        self.tag_cut = [cuts.Sram(m, f"tag{i}", [("w", self.Aidx)])
                        for i, m in enumerate(dp.tag_arrays_M1)]
        rows = []
        lw = log2(self.nlines)
        for i in range(cfg.assoc):
            k = tm.add(tm.zext(self.Aidx, lw), C(i * self.nsets, lw))
            rows.append((f"w{i}", k))
        self.data_cut = cuts.Sram(dp.data_array_M2, "data", rows)
        self.rep_cut = cuts.ReplBits(dp.replacement_bits_M1, "rep", self.Aidx)
        cs = {c.c: c for c in self.tag_cut + [self.data_cut, self.rep_cut]}
        self.cuts = list(cs.values())
        self.d = d = Design(self.top, cuts=cs)
        self.state, self.nxt, self.inputs = {}, {}, {}
        n = d.next_terms()
        for k, v in d.regs.items():
            self.state[v.p] = v
            self.nxt[v.p] = n[k]
        for c in self.cuts:
            for v in c.state_vars():
                self.state[v.p] = v
            self.nxt.update(c.nexts(d))
            for v in c.havocs():
                self.inputs[v.p] = v
        self.ports()
        for k, v in d.inputs.items():
            self.inputs[v.p] = v
        for k, v in d.undriven.items():
            # undriven in the source: 0 in simulation
            self.inputs[v.p] = v
        self.env, self.checks, self.live = {}, {}, {}
        self.init_ghost = []
        self.ghost()

    # ------------------------------------------------------------------ ports
    def ports(self):
        g = self.d.get
        self.p = p = {}
        for a, path in (("creq", "mem_minion_ifc.req"), ("cresp", "mem_minion_ifc.resp"),
                        ("mreq", "mem_master_ifc.req"), ("mresp", "mem_master_ifc.resp")):
            for f in ("en", "rdy"):
                p[f"{a}_{f}"] = g(f"{path}.{f}")
        for f in ("type_", "opaque", "addr", "len", "data"):
            p["creq_" + f] = g("mem_minion_ifc.req.msg." + f)
        for f in ("type_", "opaque", "test", "len", "data"):
            p["cresp_" + f] = g("mem_minion_ifc.resp.msg." + f)
        for f in ("type_", "opaque", "addr", "len", "wr_mask", "data"):
            p["mreq_" + f] = g("mem_master_ifc.req.msg." + f)
        for f in ("type_", "opaque", "test", "len", "wr_mask", "data"):
            p["mresp_" + f] = g("mem_master_ifc.resp.msg." + f)
        p["reset"] = g("reset")

    # ------------------------------------------------------ message helpers
    def lenmask(self, typ, ln):
        """size-1 of an access as an addr-wide mask"""
        full = self.dw // 8
        r = C(full - 1, self.aw)
        for i in range(log2(full)):
            r = ITE(EQ(ln, C(1 << i, self.lenw)), C((1 << i) - 1, self.aw), r)
        if self.dw == 32 and self.cfg.line >= 64:
            r = ITE(AND(EQ(typ, C(WRITE, 4)), EQ(ln, C(3, self.lenw))), C(7, self.aw), r)
        return r

    def legal(self, typ, ln, addr):
        m = self.lenmask(typ, ln)
        aligned = EQ(tm.and_(addr, m), C(0, self.aw))
        lens = [EQ(ln, C(0, self.lenw))] + [EQ(ln, C(1 << i, self.lenw))
                                            for i in range(self.lenw)]
        rw = AND(OR(*lens), aligned)
        dbl = tm.FALSE
        if self.dw == 32 and self.cfg.line >= 64:
            dbl = AND(EQ(ln, C(3, self.lenw)), aligned)
        amo_len = EQ(ln, C(0 if self.dw == 32 else 4, self.lenw))
        return OR(AND(EQ(typ, C(READ, 4)), rw),
                  AND(EQ(typ, C(WRITE, 4)), OR(rw, dbl)),
                  AND(self.is_amo(typ), amo_len, EQ(EXT(addr, 0, 2), C(0, 2))),
                  EQ(typ, C(INV, 4)), EQ(typ, C(FLUSH, 4)))

    @staticmethod
    def is_amo(typ):
        return AND(NOT(tm.ult(typ, C(AMO_LO, 4))), tm.ult(typ, C(AMO_HI + 1, 4)))

    def covers(self, typ, ln, addr):
        m = tm.not_(self.lenmask(typ, ln))
        return EQ(tm.and_(tm.xor_(self.A, addr), m), C(0, self.aw))

    def covers_word(self, typ, ln, addr):
        m = tm.not_(tm.or_(self.lenmask(typ, ln), C(3, self.aw)))
        return EQ(tm.and_(tm.xor_(self.A, addr), m), C(0, self.aw))

    def wordmask(self, typ, ln, addr):
        """the words of its line an access touches"""
        m = tm.not_(tm.or_(self.lenmask(typ, ln), C(3, self.aw)))
        lo = tm.and_(addr, m)
        r = []
        for k in range(self.nw):
            w = tm.or_(tm.and_(addr, C(((1 << self.aw) - 1) & ~(self.lb - 1), self.aw)), C(4 * k, self.aw))
            r.append(EQ(tm.and_(w, m), lo))
        return tm.concat(*reversed(r)) if self.nw > 1 else r[0]

    def lane(self, typ, ln):
        """byte lane of A within an access covering it"""
        return EXT(tm.and_(self.A, self.lenmask(typ, ln)), 0, max(3, log2(self.dw // 8)))

    def bytesel(self, data, lane):
        n = data.w // 8
        r = C(0, 8)
        for i in reversed(range(n)):
            r = ITE(EQ(lane, C(i, lane.w)), EXT(data, 8 * i, 8 * i + 8), r) \
                if (i >> lane.w) == 0 else r
        return r

    def wbyte(self, e):
        """byte a write puts at A"""
        return self.bytesel(e["data"], self.lane(e["type"], e["len"]))

    def linebyte(self, line):
        return self.bytesel(line, self.Aoff)

    def lineof(self, addr):
        return EXT(addr, self.offw, self.aw)

    # ----------------------------------------------------------------- ghost
    def gvar(self, name, w, init=None):
        v = V(("ghost", name), w)
        self.state[v.p] = v
        if init is not None:
            self.init_ghost.append(EQ(v, init if not isinstance(init, int) else C(init, w)))
        return v

    def set(self, v, t):
        self.nxt[v.p] = t

    def ghost(self):
        p, aw, dw, lw, ow = self.p, self.aw, self.dw, self.lenw, self.cfg.opq
        self.state[self.A.p] = self.A
        self.nxt[self.A.p] = self.A
        fl = [("type", 4), ("opq", ow), ("len", lw), ("addr", aw), ("data", dw)]
        e = []
        for i in range(2):
            x = {"v": self.gvar(f"e{i}.v", 1, 0)}
            for f, w in fl:
                x[f] = self.gvar(f"e{i}.{f}", w)
            e.append(x)
        self.e = e
        q = []
        for i in range(2):
            x = {"v": self.gvar(f"q{i}.v", 1, 0)}
            for f, w in (("type", 4), ("opq", ow), ("line", aw - self.offw), ("aw", 1)):
                x[f] = self.gvar(f"q{i}.{f}", w)
            q.append(x)
        self.q = q
        B, M = self.gvar("B", 8), self.gvar("M", 8)
        self.init_ghost.append(EQ(B, M))
        D, X = self.gvar("D", 1, 0), self.gvar("X", 1, 0)
        AO = self.gvar("AO", 8)
        rdq = self.gvar("rdq", 1, 0)
        pres = self.gvar("present", 1, 0)      # LRU promise
        oth = self.gvar("other", 1, 0)         # one other line used since
        othl = self.gvar("other_line", aw - self.offw)
        gone = self.gvar("gone", 1, 1)         # A's line must not be in the cache
        wbs = self.gvar("wbs", 1, 0)           # a WRITE was sent for the request e0
        self.G = dict(B=B, M=M, D=D, X=X, AO=AO, rdq=rdq, pres=pres, oth=oth, othl=othl,
                      gone=gone, wbs=wbs)
        ext = V(("env", "other_agent_writes"), 1)
        extv = V(("env", "other_agent_value"), 8)
        amov = V(("env", "amo_result"), 8)
        oldv = V(("env", "amo_old_value"), 8)
        for v in (ext, extv, amov, oldv):
            self.inputs[v.p] = v
        ck, env_ = self.checks, self.env

        # ---- environment contract ------------------------------------------
        acc = p["creq_en"]
        new = dict(type=p["creq_type_"], opq=p["creq_opaque"], len=p["creq_len"],
                   addr=p["creq_addr"], data=p["creq_data"])
        env_["request only when ready"] = IMP(acc, p["creq_rdy"])
        env_["request is legal and aligned"] = IMP(acc, self.legal(new["type"], new["len"], new["addr"]))
        recv = p["mresp_en"]
        env_["memory answers an outstanding request"] = IMP(recv, AND(q[0]["v"], p["mresp_rdy"]))
        env_["memory answers in order, same type"] = IMP(recv, EQ(p["mresp_type_"], q[0]["type"]))
        lineA = self.Aline
        M1 = ITE(ext, extv, M)
        X1 = OR(X, AND(ext, NOT(D)))
        # memory performs an AMO at some point between request and answer
        amofl = OR(*[AND(x["v"], x["aw"], self.is_amo(x["type"])) for x in q])
        AO1 = ITE(AND(ext, amofl), oldv, AO)
        env_["memory read returns memory"] = IMP(
            AND(recv, EQ(q[0]["type"], C(READ, 4)), EQ(q[0]["line"], lineA), NOT(X1), NOT(D)),
            EQ(self.linebyte(p["mresp_data"]), M1))
        amo_q = self.is_amo(q[0]["type"])
        w32 = EXT(p["mresp_data"], 0, 32)
        env_["memory AMO returns the old word"] = IMP(
            AND(recv, amo_q, q[0]["aw"]), EQ(self.bytesel(w32, EXT(self.A, 0, 2)), AO1))
        env_["memory AMO answer is zero-extended"] = IMP(
            AND(recv, amo_q), EQ(EXT(p["mresp_data"], 32, self.cfg.line), C(0, self.cfg.line - 32))) \
            if self.cfg.line > 32 else tm.TRUE

        # ---- memory request (send) -----------------------------------------
        send = p["mreq_en"]
        mt = p["mreq_type_"]
        mline = self.lineof(p["mreq_addr"])
        moff = EXT(p["mreq_addr"], 0, self.offw)
        match = EQ(mline, lineA)
        is_wr = EQ(mt, C(WRITE, 4))
        is_rd = EQ(mt, C(READ, 4))
        is_am = self.is_amo(mt)
        mask_bit = tm.FALSE
        for i in range(self.nw):
            mask_bit = OR(mask_bit, AND(EQ(self.Aword, C(i, self.Aword.w)), EXT(p["mreq_wr_mask"], i, i + 1))) \
                if self.nw > 1 else EXT(p["mreq_wr_mask"], 0, 1)
        wb = AND(send, is_wr, match, mask_bit)
        wbyte = self.linebyte(p["mreq_data"])
        am = AND(send, is_am, EQ(EXT(p["mreq_addr"], 2, aw), EXT(self.A, 2, aw)))
        ck["wb_only_dirty"] = IMP(wb, D)
        ck["wb_data"] = IMP(AND(wb, NOT(X)), EQ(wbyte, B))
        ck["wb_nonempty_mask"] = IMP(AND(send, is_wr), tm.nonzero(p["mreq_wr_mask"]))
        ck["mreq_kind"] = IMP(send, OR(is_wr, is_rd, is_am))
        ck["mreq_line_shape"] = IMP(AND(send, OR(is_wr, is_rd)),
                                    AND(EQ(moff, C(0, self.offw)), EQ(p["mreq_len"], C(0, self.mlenw))))
        # the request e0 is what a READ or AMO is for
        e0rw = AND(e[0]["v"], OR(EQ(e[0]["type"], C(READ, 4)), EQ(e[0]["type"], C(WRITE, 4))))
        ck["read_is_for_request"] = IMP(AND(send, is_rd), AND(e0rw, NOT(rdq), EQ(mline, self.lineof(e[0]["addr"]))))
        ck["amo_is_for_request"] = IMP(AND(send, is_am), AND(
            e[0]["v"], NOT(rdq), EQ(mt, e[0]["type"]), EQ(p["mreq_addr"], e[0]["addr"]),
            EQ(p["mreq_opaque"], e[0]["opq"])))
        ck["amo_operand"] = IMP(AND(send, is_am), AND(
            EQ(p["mreq_len"], C(4, self.mlenw) if self.mlenw > 2 else C(0, self.mlenw)),
            EQ(EXT(p["mreq_data"], 0, 32), EXT(e[0]["data"], 0, 32))))
        ck["amo_after_writeback"] = IMP(am, AND(NOT(D), OR(X, EQ(M, B))))
        ck["write_is_for_miss_or_flush"] = IMP(AND(send, is_wr), AND(
            e[0]["v"], NOT(EQ(e[0]["type"], C(INV, 4))), NOT(rdq)))
        ck["inv_silent"] = IMP(AND(send, e[0]["v"]), NOT(EQ(e[0]["type"], C(INV, 4))))
        # rdy is decided before en and msg of the same port are known
        alt = {p["creq_" + f].p: V(("alt", f), p["creq_" + f].w) for f in
               ("en", "type_", "opaque", "addr", "len", "data") if p["creq_" + f].op == "v"}
        ck["creq_rdy_before_en"] = EQ(p["creq_rdy"], tm.subst(p["creq_rdy"], alt, {}))
        alt = {p["mresp_" + f].p: V(("alt", "m" + f), p["mresp_" + f].w) for f in
               ("en", "type_", "opaque", "data") if p["mresp_" + f].op == "v"}
        ck["mresp_rdy_before_en"] = EQ(p["mresp_rdy"], tm.subst(p["mresp_rdy"], alt, {}))
        own_set = EQ(EXT(mline, 0, self.idxw), EXT(e[0]["addr"], self.offw, self.offw + self.idxw))
        ck["evict_own_set"] = IMP(AND(send, is_wr, e0rw), own_set)
        ck["amo_evicts_own_line"] = IMP(AND(send, is_wr, e[0]["v"], self.is_amo(e[0]["type"])),
                                        EQ(mline, self.lineof(e[0]["addr"])))
        ck["one_writeback"] = IMP(AND(send, is_wr, wbs), EQ(e[0]["type"], C(FLUSH, 4)))
        ck["mresp_always_taken"] = IMP(q[0]["v"], p["mresp_rdy"])
        ck["mreq_en_only_if_rdy"] = IMP(send, p["mreq_rdy"])
        ck["at_most_two_outstanding"] = IMP(send, NOT(AND(q[0]["v"], q[1]["v"], NOT(recv))))
        M2 = ITE(wb, wbyte, ITE(am, amov, M1))
        D1 = AND(D, NOT(wb))
        AOn = ITE(am, M1, AO1)
        rdq1 = OR(rdq, AND(send, OR(is_rd, is_am)))

        # ---- response (pop) --------------------------------------------------
        pop = p["cresp_en"]
        o = e[0]
        t_is = lambda k: EQ(o["type"], C(k, 4))
        o_amo = self.is_amo(o["type"])
        cov = AND(self.covers(o["type"], o["len"], o["addr"]))
        covw = AND(self.covers_word(o["type"], o["len"], o["addr"]))
        ck["resp_pending"] = IMP(pop, o["v"])
        ck["answer_after_memory"] = IMP(pop, AND(NOT(q[0]["v"]), NOT(send)))
        ck["resp_type"] = IMP(pop, EQ(p["cresp_type_"], o["type"]))
        ck["resp_opaque"] = IMP(pop, EQ(p["cresp_opaque"], o["opq"]))
        ck["resp_len"] = IMP(pop, EQ(p["cresp_len"], o["len"]))
        ck["resp_en_only_if_rdy"] = IMP(pop, p["cresp_rdy"])
        ck["resp_no_data"] = IMP(AND(pop, OR(t_is(WRITE), t_is(INV), t_is(FLUSH))),
                                 EQ(p["cresp_data"], C(0, dw)))
        ck["read_data"] = IMP(AND(pop, t_is(READ), cov, NOT(X)),
                              EQ(self.bytesel(p["cresp_data"], self.lane(o["type"], o["len"])), B))
        # bytes beyond the access size are zero
        ze = tm.TRUE
        for i in range(dw // 8):
            n = EXT(self.lenmask(o["type"], o["len"]), 0, 8)
            ze = AND(ze, OR(NOT(tm.ult(n, C(i, 8))), EQ(EXT(p["cresp_data"], 8 * i, 8 * i + 8), C(0, 8))))
        ck["read_zero_extend"] = IMP(AND(pop, t_is(READ)), ze)
        wm = EQ(EXT(o["addr"], 2, aw), EXT(self.A, 2, aw))
        ck["amo_result"] = IMP(AND(pop, o_amo, wm),
                               EQ(self.bytesel(EXT(p["cresp_data"], 0, 32), EXT(self.A, 0, 2)), AO))
        if dw > 32:
            ck["amo_zero_extend"] = IMP(AND(pop, o_amo), EQ(EXT(p["cresp_data"], 32, dw), C(0, dw - 32)))
        ck["amo_forwarded"] = IMP(AND(pop, o_amo), rdq)
        ck["flush_clean"] = IMP(AND(pop, t_is(FLUSH)), AND(NOT(D), OR(X, EQ(M, B))))
        ck["no_pending_memory_at_flush"] = IMP(AND(pop, t_is(FLUSH)), NOT(q[0]["v"]))
        rw = OR(t_is(READ), t_is(WRITE))
        ck["test_bit"] = IMP(pop, EQ(p["cresp_test"], tm.concat(C(0, 1), AND(rw, NOT(rdq)))))
        ck["hit_no_writeback"] = IMP(AND(pop, rw, wbs), rdq)
        ck["gone_line_refetched"] = IMP(AND(pop, rw, EQ(self.lineof(o["addr"]), lineA), gone), rdq)
        # LRU promise
        mine = AND(rw, EQ(self.lineof(o["addr"]), lineA))
        ck["lru_hit"] = IMP(AND(pop, mine, pres), NOT(rdq))
        ck["lru_no_refetch"] = IMP(AND(send, is_rd, match), NOT(pres))
        sameset = AND(rw, EQ(EXT(o["addr"], self.offw, self.offw + self.idxw), self.Aidx), NOT(mine))
        oline = self.lineof(o["addr"])
        drop = OR(t_is(INV), AND(o_amo, EQ(oline, lineA)))
        if self.cfg.assoc == 1:
            drop = OR(drop, sameset)
            oth_n, othl_n = oth, othl
        else:
            second = AND(sameset, oth, tm.ne(oline, othl))
            drop = OR(drop, second)
            oth_n = ITE(pop, ITE(mine, tm.FALSE, OR(oth, sameset)), oth)
            othl_n = ITE(AND(pop, sameset), oline, othl)
        # an AMO in the set of A to another line makes no promise worse for A
        pres_n = ITE(pop, ITE(mine, tm.TRUE, AND(pres, NOT(drop))), pres)

        wr_here = AND(pop, t_is(WRITE))
        b = self.wbyte(o)
        inv_here = AND(pop, t_is(INV))
        amo_here = AND(pop, o_amo, wm)
        Bn = ITE(AND(wr_here, cov), b,
                 ITE(OR(amo_here, AND(inv_here, NOT(D1))), M2, B))
        Xn = ITE(OR(AND(wr_here, cov), amo_here, AND(inv_here, NOT(D1))), tm.FALSE, X1)
        Dn = OR(D1, AND(wr_here, covw))
        if self.cfg.assoc == 1 and hasattr(self, "rep_cut"):
            # one way: every replacement bit stays 0 (proved for the watched
            # set, which is any set; assumed of the others in the step)
            rc = self.rep_cut.c
            ck["repl_bits_zero"] = IMP(self.d.value(rc.wen), EQ(self.d.value(rc.wdata), C(0, 1)))
            env_["replacement bits of a 1-way cache are 0"] = EQ(self.rep_cut.havoc, C(0, 1))
        ck["accept_room"] = IMP(acc, NOT(AND(e[1]["v"], NOT(pop))))
        # nothing is accepted, sent or answered during reset
        rdqn = ITE(pop, tm.FALSE, rdq1)

        # ---- FIFO updates ----------------------------------------------------
        for f, w in [("v", 1)] + fl:
            nv = acc if f == "v" else new[f]
            o0, o1 = e[0][f], e[1][f]
            e0p = ITE(pop, o1, o0)
            if f == "v":
                # after pop: (e1.v, 0); push goes to first free place
                v0, v1 = ITE(pop, e[1]["v"], e[0]["v"]), ITE(pop, tm.FALSE, e[1]["v"])
                self.set(o0, OR(v0, acc))
                self.set(o1, OR(v1, AND(acc, v0)))
            else:
                v0 = ITE(pop, e[1]["v"], e[0]["v"])
                self.set(o0, ITE(v0, e0p, ITE(acc, nv, e0p)))
                self.set(o1, ITE(AND(acc, v0), nv, o1))
        qn = dict(type=mt, opq=p["mreq_opaque"], line=mline,
                  aw=EQ(EXT(p["mreq_addr"], 2, aw), EXT(self.A, 2, aw)))
        for f in ("v", "type", "opq", "line", "aw"):
            o0, o1 = q[0][f], q[1][f]
            v0 = ITE(recv, q[1]["v"], q[0]["v"])
            if f == "v":
                v1 = ITE(recv, tm.FALSE, q[1]["v"])
                self.set(o0, OR(v0, send))
                self.set(o1, OR(v1, AND(send, v0)))
            else:
                p0 = ITE(recv, o1, o0)
                self.set(o0, ITE(v0, p0, ITE(send, qn[f], p0)))
                self.set(o1, ITE(AND(send, v0), qn[f], o1))
        self.set(B, Bn)
        self.set(M, M2)
        self.set(D, Dn)
        self.set(X, Xn)
        self.set(AO, AOn)
        self.set(rdq, rdqn)
        self.set(pres, pres_n)
        self.set(oth, oth_n)
        self.set(gone, ITE(pop, ITE(mine, tm.FALSE, OR(gone, t_is(INV), AND(o_amo, EQ(oline, lineA)))), gone))
        self.set(wbs, ITE(pop, tm.FALSE, OR(wbs, AND(send, is_wr))))
        self.set(othl, othl_n)
        self.ev = dict(acc=acc, pop=pop, send=send, recv=recv, ext=ext)
        if self.timing:
            self.ghost_time(is_wr)

    def ghost_time(self, is_wr):
        """Latency ghost.  A cycle counts when nobody else holds the cache up:
        the client takes responses, memory takes requests and no memory
        request is outstanding.
          age0, age1   counted cycles since e0 / e1 was accepted
          blk0, blk1   counted cycles in which the cache refused requests while
                       that request was the youngest (2 = two or more)
          nwb          write-backs sent for e0
          up           cycles since reset (saturates)"""
        p, e, q, ev = self.p, self.e, self.q, self.ev
        acc, pop, send = ev["acc"], ev["pop"], ev["send"]
        lw = log2(self.nlines)
        W = self.agew = lw + 5
        age = [self.gvar(f"age{i}", W, 0) for i in range(2)]
        blk = [self.gvar(f"blk{i}", 2, 0) for i in range(2)]
        nwb = self.gvar("nwb", W, 0)
        up = self.gvar("up", lw + 1, 0)
        self.GT = dict(age=age, blk=blk, nwb=nwb, up=up)
        free = AND(p["cresp_rdy"], p["mreq_rdy"], NOT(q[0]["v"]))
        older = [tm.add(a, tm.zext(free, W)) for a in age]
        refuse = AND(free, NOT(p["creq_rdy"]))
        y1, y0 = e[1]["v"], AND(e[0]["v"], NOT(e[1]["v"]))
        sat = lambda b, c: ITE(AND(c, NOT(EQ(b, C(2, 2)))), tm.add(b, C(1, 2)), b)
        b0, b1 = sat(blk[0], AND(y0, refuse)), sat(blk[1], AND(y1, refuse))
        v0 = ITE(pop, e[1]["v"], e[0]["v"])
        zW, z2 = C(0, W), C(0, 2)
        self.set(age[0], ITE(v0, ITE(pop, older[1], older[0]), zW))
        self.set(age[1], ITE(AND(acc, v0), zW, older[1]))
        self.set(blk[0], ITE(v0, ITE(pop, b1, b0), z2))
        self.set(blk[1], ITE(AND(acc, v0), z2, b1))
        n = tm.add(nwb, tm.zext(AND(send, is_wr), W))
        self.set(nwb, ITE(pop, zW, n))
        self.set(up, ITE(EQ(up, C(self.nlines, lw + 1)), up, tm.add(up, C(1, lw + 1))))
        o, rdq = e[0], self.G["rdq"]
        t_is = lambda k: EQ(o["type"], C(k, 4))
        rw = OR(t_is(READ), t_is(WRITE))
        le = lambda t, k, *x: tm.ule(t, sum_terms(C(k, W), *x))
        ck = self.checks
        hit = AND(pop, rw, NOT(rdq))
        ck["hit_latency"] = IMP(hit, le(age[0], 1))
        ck["read_hit_never_blocks"] = IMP(AND(hit, t_is(READ)), EQ(b0, z2))
        ck["write_hit_blocks_once"] = IMP(AND(hit, t_is(WRITE)), NOT(EQ(b0, C(2, 2))))
        ck["request_to_memory_latency"] = IMP(AND(send, NOT(is_wr)), le(age[0], 1, nwb))
        ck["writeback_latency"] = IMP(AND(send, is_wr, NOT(t_is(FLUSH))), le(age[0], 1))
        ck["miss_latency"] = IMP(AND(pop, rw, rdq), le(age[0], 5, nwb))
        ck["amo_latency"] = IMP(AND(pop, self.is_amo(o["type"])), le(age[0], 4, nwb))
        ck["inv_latency"] = IMP(AND(pop, t_is(INV)), le(age[0], self.nlines + 2))
        ck["flush_latency"] = IMP(AND(pop, t_is(FLUSH)), le(age[0], self.nlines + 2, nwb, nwb, nwb))
        ck["init_latency"] = IMP(AND(EQ(up, C(self.nlines, lw + 1)), NOT(e[0]["v"])), p["creq_rdy"])

    # ------------------------------------------------------------- utilities
    def reg(self, name):
        return self.d.get(name)
