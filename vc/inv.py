"""Inductive invariant of BlockingCacheRTL: what links the design's registers
to the ghost state of cache.py.  Each conjunct is one named obligation."""
import importlib

from . import term as tm
from .cache import sum_terms, AND, OR, NOT, EQ, IMP, ITE, EXT, C, READ, WRITE, INIT, INV, FLUSH


def log2n(n):
    return n.bit_length() - 1


class View:
    """Named access to the state the invariant talks about."""

    def __init__(self, c):
        self.c = c
        g = c.d.get
        m = importlib.import_module("blocking_cache.BlockingCacheCtrlRTL")
        self.T = {k[len("TRANS_TYPE_"):]: int(v) for k, v in vars(m).items()
                  if k.startswith("TRANS_TYPE_") and k != "TRANS_TYPE_NBITS"}
        self.FS = {k[len("M0_FSM_STATE_"):]: int(v) for k, v in vars(m).items()
                   if k.startswith("M0_FSM_STATE_") and k != "M0_FSM_STATE_NBITS"}
        ct, dp = "cacheCtrl.", "cacheDpath."
        self.F = g(ct + "FSM_state_M0.out")
        self.t1, self.t2 = g(ct + "trans_M1.out"), g(ct + "trans_M2.out")
        self.cnt = g(ct + "counter_M0.out")
        self.men0 = g(ct + "memresp_en_M0.out")
        self.wp1 = g(ct + "way_ptr_M1.out")
        self.utw1 = g(ct + "update_tag_way_M1.out")
        self.wst = g(ct + "was_stalled.out")
        self.ev2 = g(ct + "is_evict_M2.out")
        self.hit2 = g(ct + "hit_reg_M2.out")
        self.fl2 = g(ct + "has_flush_sent_M2.out")
        P0 = dp + "pipeline_reg_M0.out."
        self.mt0, self.md0 = g(P0 + "type_"), g(P0 + "data")
        for n, path in (("c1", "cachereq_M1"), ("c2", "cachereq_M2")):
            for f in ("type_", "opaque", "len", "data"):
                setattr(self, f"{n}_{f}", g(f"{dp}{path}.out.{f}"))
            for f in ("tag", "index", "offset"):
                setattr(self, f"{n}_{f}", g(f"{dp}{path}.out.addr.{f}"))
            setattr(self, f"{n}_addr", tm.concat(*[getattr(self, f"{n}_{f}") for f in ("tag", "index", "offset")]))
            setattr(self, f"{n}_line", EXT(getattr(self, f"{n}_addr"), c.offw, c.aw))
        for f in ("type_", "opaque", "addr", "len", "data", "repl", "amo_hit", "dirty_bits"):
            setattr(self, "ms_" + f, g(f"{dp}mshr.storage_regs.out.{f}"))
        self.ms_line = EXT(self.ms_addr, c.offw, c.aw)
        self.ms_index = EXT(self.ms_addr, c.offw, c.offw + c.idxw)
        self.ms_tag = EXT(self.ms_addr, c.offw + c.idxw, c.aw)
        self.ne = g(dp + "mshr.num_entries_reg.out")
        self.wm2 = g(dp + "write_mask_M2.out")
        self.fidx1 = g(dp + "flush_idx_M1.out")
        self.dm1 = g(dp + "dty_bits_mask_M1.out")
        n = c.cfg.assoc
        self.row, self.te = [], []
        for i in range(n):
            r = c.tag_cut[i].row[0]
            self.row.append(self.split(r))
            t = g(f"{dp}tag_array_rdata_M1[{i}].out")
            self.te.append(self.split(t))
        self.drow = c.data_cut.row
        self.de = g(dp + "stall_engine_M2.out")
        self.rb = c.rep_cut.bit
        self.hs_hit = g(dp + "hit_stall_engine.stall_reg.out.hit")
        self.hs_way = g(dp + "hit_stall_engine.stall_reg.out.hit_way")

    def split(self, t):
        c = self.c
        return dict(tag=EXT(t, 0, c.tagw), dty=EXT(t, c.tagw, c.tagw + c.nw),
                    val=EXT(t, c.tagw + c.nw, c.tagw + c.nw + 1))

    def isT1(self, *n):
        return OR(*[EQ(self.t1, C(self.T[x], self.t1.w)) for x in n])

    def isT2(self, *n):
        return OR(*[EQ(self.t2, C(self.T[x], self.t2.w)) for x in n])

    def isF(self, *n):
        return OR(*[EQ(self.F, C(self.FS[x], self.F.w)) for x in n])


REPLAYS = ("REPLAY_READ", "REPLAY_WRITE", "REPLAY_AMO", "REPLAY_INV", "REPLAY_FLUSH")
FRESH = ("READ_REQ", "WRITE_REQ", "AMO_REQ", "INV_START", "FLUSH_START")


def invariants(c):
    v = View(c)
    I = {}
    is_amo = c.is_amo
    ty = lambda t, *k: OR(*[EQ(t, C(x, 4)) for x in k])
    G, e, q = c.G, c.e, c.q
    B, M, D, X = G["B"], G["M"], G["D"], G["X"]
    rdq = G["rdq"]
    n = c.cfg.assoc
    Z = lambda w: C(0, w)
    isF, T1, T2 = v.isF, v.isT1, v.isT2
    ne, ev2, men0 = v.ne, v.ev2, v.men0
    ms_rw = ty(v.ms_type_, READ, WRITE)
    ms_amo = is_amo(v.ms_type_)
    ms_inv, ms_fl = ty(v.ms_type_, INV), ty(v.ms_type_, FLUSH)

    # ---------------------------------------------------------------- control
    rw1, rw2 = T1("READ_REQ", "WRITE_REQ"), T2("READ_REQ", "WRITE_REQ")
    rwa1, rwa2 = T1("READ_REQ", "WRITE_REQ", "AMO_REQ"), T2("READ_REQ", "WRITE_REQ", "AMO_REQ")
    P1 = T1(*FRESH)
    PR1, PR2 = T1(*REPLAYS), T2(*REPLAYS)
    hitp2 = AND(rw2, NOT(ev2), v.hit2)
    P2 = OR(hitp2, PR2)
    tosend = OR(AND(rw2, NOT(ev2), NOT(v.hit2)), AND(T2("AMO_REQ"), NOT(ev2)))
    fsend = AND(T2("FLUSH_READ"), v.fl2)
    evp = AND(rwa2, ev2)
    idle1 = T1("INVALID", "CLEAN_HIT")
    idle2 = T2("INVALID", "CLEAN_HIT", "REFILL", "CACHE_INIT", "INV_START", "INV_WRITE",
               "FLUSH_START", "FLUSH_WAIT", "FLUSH_WRITE")
    I["fsm_range"] = isF("INIT", "READY", "REPLAY", "INV", "FLUSH", "FLUSH_WAIT")
    I["t1_range"] = OR(P1, PR1, idle1, T1("REFILL", "CACHE_INIT", "INV_WRITE", "FLUSH_READ", "FLUSH_WAIT", "FLUSH_WRITE"))
    I["t2_range"] = OR(rwa2, PR2, idle2, T2("FLUSH_READ"))
    I["ev2_only_rwa"] = IMP(ev2, AND(rwa2, rwa1, EQ(v.t1, v.t2)))
    I["ev2_ne"] = IMP(ev2, NOT(ne))
    I["hit2_only_rw"] = IMP(AND(v.hit2, NOT(T2("AMO_REQ"))), rw2)
    I["fl2_only_read"] = IMP(v.fl2, T2("FLUSH_READ"))
    # ---- INIT phase
    I["init_stages"] = IMP(isF("INIT"), AND(T1("INVALID", "CACHE_INIT"), T2("INVALID", "CACHE_INIT")))
    I["init_stage1"] = IMP(T1("CACHE_INIT"), AND(isF("INIT", "READY"), T2("INVALID", "CACHE_INIT")))
    I["init_stage2"] = IMP(T2("CACHE_INIT"), AND(NOT(ne), OR(T1("CACHE_INIT"), P1, T1("INVALID"))))
    I["init_empty"] = IMP(OR(isF("INIT"), T1("CACHE_INIT")), AND(
        NOT(ne), NOT(men0), NOT(e[0]["v"]), NOT(q[0]["v"]), NOT(D), OR(X, EQ(B, M)), NOT(G["pres"])))
    # ---- MSHR and pipeline occupancy
    I["cnt_idle"] = IMP(NOT(isF("INIT", "INV", "FLUSH", "FLUSH_WAIT")),
                        OR(EQ(v.cnt, C(-1, v.cnt.w))))
    I["ne_ready_type"] = IMP(AND(ne, isF("READY")), OR(ms_rw, ms_amo))
    I["fsm_inv"] = IMP(isF("INV"), OR(AND(NOT(ne), T1("INV_START")),
                                      AND(ne, ms_inv, T1("INV_WRITE"), T2("INV_START", "INV_WRITE"))))
    I["fsm_flush_ne"] = IMP(isF("FLUSH", "FLUSH_WAIT"), OR(AND(ne, ms_fl), AND(isF("FLUSH"), NOT(ne), T1("FLUSH_START"))))
    I["inv_start"] = IMP(T1("INV_START"), AND(isF("INV"), NOT(ne)))
    I["flush_start"] = IMP(T1("FLUSH_START"), AND(isF("FLUSH"), NOT(ne)))
    I["t2_inv_start"] = IMP(T2("INV_START"), AND(ne, ms_inv, T1("INV_WRITE"), isF("INV", "REPLAY")))
    I["t2_flush_start"] = IMP(T2("FLUSH_START"), AND(ne, ms_fl, T1("FLUSH_READ", "FLUSH_WAIT"), isF("FLUSH", "FLUSH_WAIT", "REPLAY")))
    I["t1_inv_write"] = IMP(T1("INV_WRITE"), AND(ne, ms_inv, isF("INV", "REPLAY")))
    I["t2_inv_write"] = IMP(T2("INV_WRITE"), OR(AND(ne, ms_inv, T1("INV_WRITE"), isF("INV", "REPLAY")), T1("REPLAY_INV")))
    I["ne_inv"] = IMP(AND(ne, ms_inv), AND(isF("INV", "REPLAY"), T1("INV_WRITE"), T2("INV_START", "INV_WRITE")))
    fl_tr1 = T1("FLUSH_READ", "FLUSH_WAIT", "FLUSH_WRITE")
    I["t1_flush"] = IMP(fl_tr1, AND(ne, ms_fl, isF("FLUSH", "FLUSH_WAIT", "REPLAY")))
    I["ne_flush"] = IMP(AND(ne, ms_fl), AND(fl_tr1, isF("FLUSH", "FLUSH_WAIT", "REPLAY"),
                                            T2("FLUSH_START", "FLUSH_READ", "FLUSH_WAIT", "FLUSH_WRITE")))
    I["t2_flush"] = IMP(T2("FLUSH_READ", "FLUSH_WAIT", "FLUSH_WRITE"), OR(AND(ne, ms_fl), T1("REPLAY_FLUSH")))
    I["ne_type"] = IMP(ne, OR(ms_rw, ms_amo, ms_inv, ms_fl))
    I["ne_rw_amo_fsm"] = IMP(AND(ne, OR(ms_rw, ms_amo)), AND(isF("READY", "REPLAY"), IMP(ms_amo, isF("READY"))))
    I["ne_rw_stage1"] = IMP(AND(ne, OR(ms_rw, ms_amo), isF("READY")), T1("INVALID"))
    I["ne_rw_stage2"] = IMP(AND(ne, OR(ms_rw, ms_amo)), OR(tosend, T2("INVALID")))
    I["replay_has_entry"] = IMP(isF("REPLAY"), ne)
    I["replay_rw"] = IMP(AND(isF("REPLAY"), ms_rw), AND(T1("REFILL"), T2("INVALID")))
    I["refill"] = IMP(T1("REFILL"), AND(ne, ms_rw, isF("REPLAY")))
    I["refill2"] = IMP(T2("REFILL"), T1("REPLAY_READ", "REPLAY_WRITE"))
    I["tosend_ne"] = IMP(tosend, AND(ne, isF("READY"), T1("INVALID")))
    I["tosend_type"] = IMP(tosend, AND(EQ(T2("AMO_REQ"), ms_amo), EQ(rw2, ms_rw)))
    I["fresh_fsm"] = IMP(rwa1, AND(isF("READY"), NOT(ne)))
    I["fresh_stage2"] = IMP(AND(P1, NOT(ev2)), OR(hitp2, PR2, T2("INVALID", "CLEAN_HIT", "CACHE_INIT")))
    I["fresh_after_clean"] = IMP(T2("CLEAN_HIT"), OR(P1, T1("INVALID")))
    I["idle1_fsm"] = IMP(AND(idle1, NOT(ne)), OR(isF("READY"), isF("INIT")))
    I["clean1"] = IMP(T1("CLEAN_HIT"), AND(NOT(ne), isF("READY"), hitp2, T2("WRITE_REQ")))
    I["pr1"] = IMP(PR1, AND(NOT(ne), isF("READY"), T2("INVALID", "REFILL", "INV_WRITE", "FLUSH_READ", "FLUSH_WRITE"),
                            NOT(v.fl2)))
    I["pr1_src"] = AND(IMP(T1("REPLAY_READ", "REPLAY_WRITE"), T2("REFILL")),
                       IMP(T1("REPLAY_INV"), T2("INV_WRITE")),
                       IMP(T1("REPLAY_AMO"), T2("INVALID")),
                       IMP(T1("REPLAY_FLUSH"), T2("FLUSH_READ", "FLUSH_WRITE")))
    I["p2_noms"] = IMP(P2, NOT(OR(PR1, AND(ne, NOT(tm.FALSE)))))

    # ---------------------------------------------------- requests <-> stages
    inpipe1 = OR(P1, PR1)
    I["e0_valid"] = EQ(e[0]["v"], OR(P1, PR1, ne, P2))
    I["e1_valid"] = EQ(e[1]["v"], AND(P1, P2))

    def same_req(x, typ, opq, ln, addr):
        return AND(EQ(x["type"], typ), EQ(x["opq"], opq), EQ(x["len"], ln), EQ(x["addr"], addr))
    I["m2_req"] = IMP(P2, AND(same_req(e[0], v.c2_type_, v.c2_opaque, v.c2_len, v.c2_addr)))
    I["m2_amo_req"] = IMP(tosend, same_req(e[0], v.c2_type_, v.c2_opaque, v.c2_len, v.c2_addr))
    I["m1_replay_req"] = IMP(PR1, same_req(e[0], v.c1_type_, v.c1_opaque, v.c1_len, v.c1_addr))
    y = {f: ITE(P2, e[1][f], e[0][f]) for f in e[0]}     # youngest
    I["m1_req"] = IMP(P1, same_req(y, v.c1_type_, v.c1_opaque, v.c1_len, v.c1_addr))
    I["mshr_req"] = IMP(ne, same_req(e[0], v.ms_type_, v.ms_opaque, v.ms_len, v.ms_addr))
    trans_of = lambda t, typ, pre: AND(
        EQ(EQ(t, C(v.T[pre[0]], t.w)), ty(typ, READ)), EQ(EQ(t, C(v.T[pre[1]], t.w)), ty(typ, WRITE)),
        EQ(EQ(t, C(v.T[pre[2]], t.w)), is_amo(typ)), EQ(EQ(t, C(v.T[pre[3]], t.w)), ty(typ, INV)),
        EQ(EQ(t, C(v.T[pre[4]], t.w)), ty(typ, FLUSH)),
        OR(*[EQ(t, C(v.T[k], t.w)) for k in pre]))
    I["m1_trans"] = IMP(P1, trans_of(v.t1, v.c1_type_, FRESH))
    I["m1_replay_trans"] = IMP(PR1, trans_of(v.t1, v.c1_type_, REPLAYS))
    I["m2_replay_trans"] = IMP(PR2, trans_of(v.t2, v.c2_type_, REPLAYS))
    I["m2_hit_trans"] = IMP(OR(hitp2, tosend), AND(EQ(T2("READ_REQ"), ty(v.c2_type_, READ)),
                                                   EQ(T2("WRITE_REQ"), ty(v.c2_type_, WRITE)),
                                                   EQ(T2("AMO_REQ"), is_amo(v.c2_type_))))
    legal = lambda x: c.legal(x["type"], x["len"], x["addr"])
    I["e0_legal"] = IMP(e[0]["v"], legal(e[0]))
    I["e1_legal"] = IMP(e[1]["v"], legal(e[1]))
    # data travelling with a write / AMO
    def repl(typ, ln, data):
        """what DataReplicator must make of it (write: replicated, AMO: zero
        extended)"""
        r = tm.concat(*[data] * (c.cfg.line // c.dw))
        for i in range(c.lenw):
            w = 8 << i
            r = ITE(EQ(ln, C(1 << i, c.lenw)), tm.concat(*[EXT(data, 0, w)] * (c.cfg.line // w)), r)
        if c.dw == 32 and c.cfg.line >= 64:
            r = ITE(EQ(ln, C(3, c.lenw)), tm.concat(*[tm.zext(data, 64)] * (c.cfg.line // 64)), r)
        return ITE(is_amo(typ), tm.zext(data, c.cfg.line), r)
    has_data = lambda x: OR(ty(x["type"], WRITE), is_amo(x["type"]))
    def low(x, line):
        return EXT(line, 0, c.dw)
    I["m1_data"] = IMP(AND(OR(P1, T1("REPLAY_WRITE")), has_data(y)), EQ(v.c1_data, repl(y["type"], y["len"], y["data"])))
    I["mshr_data"] = IMP(AND(ne, has_data(e[0])), EQ(v.ms_data, low(e[0], repl(e[0]["type"], e[0]["len"], e[0]["data"]))))
    I["m2_amo_data"] = IMP(AND(T2("AMO_REQ"), NOT(ev2)), EQ(EXT(v.c2_data, 0, 32), EXT(e[0]["data"], 0, 32)))

    # ------------------------------------------------------- memory traffic
    aq = is_amo(q[0]["type"])
    I["q1_q0"] = IMP(q[1]["v"], q[0]["v"])
    q_is = lambda x, *k: AND(x["v"], ty(x["type"], *k))
    q_amo = lambda x: AND(x["v"], is_amo(x["type"]))
    fetched0 = AND(men0, OR(AND(ms_rw, ty(v.mt0, READ)), AND(ms_amo, EQ(v.mt0, v.ms_type_))))
    waiting = AND(ne, OR(ms_rw, ms_amo), isF("READY"), NOT(tosend), NOT(AND(men0, NOT(ty(v.mt0, WRITE)))))
    qlast = {f: ITE(q[1]["v"], q[1][f], q[0][f]) for f in q[0]}
    I["q0_types"] = IMP(q[0]["v"], OR(ty(q[0]["type"], READ, WRITE), aq))
    I["q1_types"] = IMP(q[1]["v"], AND(ty(q[0]["type"], WRITE), OR(ty(q[1]["type"], READ), is_amo(q[1]["type"]))))
    I["waiting_q"] = EQ(waiting, AND(q[0]["v"], NOT(ty(qlast["type"], WRITE))))
    I["waiting_q_match"] = IMP(waiting, AND(EQ(qlast["line"], v.ms_line),
                               IMP(ms_amo, EQ(qlast["aw"], EQ(EXT(v.ms_addr, 2, c.aw), EXT(c.A, 2, c.aw)))),
                               ITE(ms_amo, EQ(qlast["type"], v.ms_type_), ty(qlast["type"], READ))))
    I["q_only_when"] = IMP(q[0]["v"], OR(tosend, waiting, AND(ne, ms_fl), evp))
    I["evp_q"] = IMP(evp, AND(NOT(q[0]["v"]), NOT(men0)))
    I["tosend_q"] = IMP(tosend, AND(NOT(q[1]["v"]), IMP(q[0]["v"], ty(q[0]["type"], WRITE)), IMP(men0, ty(v.mt0, WRITE)),
                                    NOT(AND(q[0]["v"], men0))))
    I["men0_ne"] = IMP(men0, ne)
    I["men0_kind"] = IMP(men0, OR(AND(OR(ms_rw, ms_amo), isF("READY"), OR(tosend, waiting), ty(v.mt0, WRITE)),
                                  AND(OR(ms_rw, ms_amo), isF("READY"), fetched0, NOT(tosend)),
                                  AND(ms_fl, isF("FLUSH_WAIT"), ty(v.mt0, WRITE))))
    I["men0_q"] = IMP(AND(men0, NOT(ty(v.mt0, WRITE))), NOT(q[0]["v"]))
    I["men0_q1"] = IMP(AND(men0), NOT(q[1]["v"]))
    I["rdq_def"] = IMP(e[0]["v"], EQ(rdq, OR(AND(ne, OR(ms_rw, ms_amo), NOT(tosend)),
                       T1("REPLAY_READ", "REPLAY_WRITE", "REPLAY_AMO"), T2("REPLAY_READ", "REPLAY_WRITE", "REPLAY_AMO"))))
    I["rdq_e0"] = IMP(rdq, e[0]["v"])
    # flush handshake
    fwait = AND(isF("FLUSH_WAIT"), NOT(T1("FLUSH_READ")), NOT(AND(T2("FLUSH_READ"))))
    I["flush_q1"] = IMP(AND(ne, ms_fl), NOT(q[1]["v"]))
    I["flush_wait"] = IMP(AND(ne, ms_fl), EQ(OR(q[0]["v"], men0), fwait))
    I["flush_wait_one"] = IMP(AND(ne, ms_fl), NOT(AND(q[0]["v"], men0)))
    I["flush_q_type"] = IMP(AND(ne, ms_fl, q[0]["v"]), ty(q[0]["type"], WRITE))
    I["fsend_state"] = IMP(fsend, AND(isF("FLUSH_WAIT"), T1("FLUSH_WAIT")))
    I["fwait_t1"] = IMP(isF("FLUSH_WAIT"), T1("FLUSH_WAIT"))
    I["fread_t1"] = IMP(AND(T1("FLUSH_WAIT"), NOT(isF("FLUSH_WAIT"))), tm.FALSE)
    I["frt2"] = IMP(AND(T2("FLUSH_READ"), T1("FLUSH_WAIT")), v.fl2)
    I["fl2_t1"] = IMP(v.fl2, T1("FLUSH_WAIT"))

    # ------------------------------------------------------------- tag state
    s_row = v.row
    inset = lambda idx: EQ(idx, c.Aidx)
    wsel = lambda dty: OR(*[AND(EQ(c.Aword, C(k, c.Aword.w)), EXT(dty, k, k + 1)) for k in range(c.nw)])
    lw = v.cnt.w

    def flat(i):
        """position of (A's set, way i) in the INIT/INV/FLUSH walk"""
        x = tm.zext(c.Aidx, lw) if c.Aidx.w < lw else c.Aidx
        return tm.add(tm.mul(x, C(n, lw)), C(i, lw))
    way = lambda t, i: EQ(t, C(i, t.w))
    if n == 1:
        for nm in ("wp1", "utw1"):
            I["way0_" + nm] = EQ(getattr(v, nm), Z(getattr(v, nm).w))
        I["way0_hs_way"] = OR(AND(NOT(v.wst), NOT(ev2)), EQ(v.hs_way, Z(v.hs_way.w)))
        I["way0_repl"] = EQ(v.ms_repl, Z(v.ms_repl.w))
        I["way0_rep_bit"] = EQ(v.rb, C(0, 1))
    mt = [EQ(r["tag"], c.Atag) for r in s_row]
    dy = [wsel(r["dty"]) for r in s_row]
    anyd = [tm.nonzero(r["dty"]) for r in s_row]
    pres = [AND(mt[i], OR(s_row[i]["val"], anyd[i])) for i in range(n)]
    # MSHR entry for the watched set, on way i
    ms_on = [AND(ne, inset(v.ms_index), way(v.ms_repl, i)) for i in range(n)]
    msd0 = EQ(v.ms_dirty_bits, Z(c.nw))
    flwb = fwait       # write-back of line cnt+1 sent, tag not yet cleared
    cnt1 = tm.add(v.cnt, C(1, lw))
    uninit = [AND(isF("INIT"), tm.ule(flat(i), v.cnt)) for i in range(n)]
    zombd = [OR(uninit[i], AND(ms_on[i], ms_rw, msd0, isF("READY")), AND(ms_on[i], ms_amo, v.ms_amo_hit)) for i in range(n)]
    zomb = [OR(uninit[i], AND(ms_on[i], ms_rw, msd0, isF("READY")), AND(ms_on[i], ms_amo, v.ms_amo_hit),
               AND(flwb, EQ(cnt1, flat(i)))) for i in range(n)]
    for i in range(n):
        # INIT clears from the top
        I[f"init_clear{i}"] = IMP(AND(isF("INIT"), NOT(tm.ule(flat(i), v.cnt))),
                                  AND(NOT(s_row[i]["val"]), NOT(anyd[i])))
        I[f"init_clear_end{i}"] = IMP(T1("CACHE_INIT"), IMP(isF("READY"), AND(NOT(s_row[i]["val"]), NOT(anyd[i]))))
        invd = OR(AND(isF("INV"), tm.ult(v.cnt, flat(i))), AND(isF("REPLAY"), ms_inv), T1("REPLAY_INV"), T2("REPLAY_INV"))
        I[f"inv_walk{i}"] = IMP(invd, NOT(s_row[i]["val"]))
    # FLUSH walk: what is above the counter is clean
    fready = AND(isF("FLUSH"), NOT(T1("FLUSH_READ")))
    for i in range(n):
        above = tm.ult(v.cnt, flat(i))
        isc = EQ(cnt1, flat(i))
        dirty_pending = OR(T1("FLUSH_READ"), AND(isF("FLUSH_WAIT")))
        # all strictly above cnt+1 are clean; cnt+1 itself is clean unless its
        # read is in M1 or its write-back is under way
        wrap = EQ(v.cnt, C(-1, lw))
        ms_flp = OR(AND(isF("FLUSH"), T1("FLUSH_READ", "FLUSH_WRITE")), isF("FLUSH_WAIT"),
                    AND(isF("REPLAY"), ms_fl))
        done_i = ITE(wrap, tm.TRUE, above)
        done_i = IMP(AND(isF("FLUSH"), T1("FLUSH_START")), tm.FALSE) if False else done_i
        I[f"flush_walk{i}"] = IMP(AND(ms_fl, ne, NOT(T1("FLUSH_START")), done_i,
                                      NOT(AND(dirty_pending, isc))), NOT(anyd[i]))
        I[f"flush_done{i}"] = IMP(T1("REPLAY_FLUSH"), NOT(anyd[i]))
    I["flush_cnt_start"] = IMP(T1("FLUSH_START"), EQ(v.cnt, C(-1, lw)))
    I["inv_cnt_start"] = IMP(T1("INV_START"), EQ(v.cnt, C(-1, lw)))
    I["flush_first"] = IMP(AND(ne, ms_fl, T2("FLUSH_START")), EQ(v.cnt, C(-2, lw)))
    # unique copy: two occupied ways of a set never hold the same tag
    occ = [OR(s_row[i]["val"], anyd[i]) for i in range(n)]
    if n == 2:
        I["unique"] = IMP(AND(NOT(zombd[0]), NOT(zombd[1])),
                          NOT(AND(occ[0], occ[1], EQ(s_row[0]["tag"], s_row[1]["tag"]))))
    msS = AND(ne, inset(v.ms_index))
    for i in range(n):
        has = AND(occ[i], EQ(s_row[i]["tag"], v.ms_tag))
        # the missing line is not present elsewhere
        I[f"miss_absent{i}"] = IMP(AND(msS, ms_rw, has), OR(ms_on[i], uninit[i]))
        I[f"amo_absent{i}"] = IMP(AND(msS, ms_amo, has), AND(ms_on[i], v.ms_amo_hit))
        I[f"evict2_absent{i}"] = IMP(AND(evp, rw1, inset(v.c1_index), EQ(s_row[i]["tag"], v.c1_tag)), NOT(occ[i]))
        I[f"partial{i}"] = IMP(AND(ms_on[i], ms_rw, NOT(msd0)),
                               AND(EQ(s_row[i]["tag"], v.ms_tag),
                                   EQ(s_row[i]["val"], isF("REPLAY"))))
        I[f"partial_d{i}"] = IMP(AND(ms_on[i], ms_rw, OR(NOT(msd0), isF("REPLAY"))), EQ(s_row[i]["dty"], v.ms_dirty_bits))
        I[f"refilled{i}"] = IMP(AND(ms_on[i], ms_rw, isF("REPLAY")), AND(s_row[i]["val"], EQ(s_row[i]["tag"], v.ms_tag)))
    # the tags seen in M1 are the stored ones
    seen = AND(rwa1, NOT(ev2), inset(v.c1_index))
    for i in range(n):
        st = AND(v.wst, T1("WRITE_REQ"))
        # a stalled write hit marked its words already
        marked = AND(st, v.te[i]["val"], EQ(v.te[i]["tag"], v.c1_tag))
        wm = c.wordmask(v.c1_type_, v.c1_len, v.c1_addr)
        I[f"tags_seen{i}"] = IMP(seen, AND(EQ(v.te[i]["tag"], s_row[i]["tag"]), EQ(v.te[i]["val"], s_row[i]["val"]),
                                           EQ(s_row[i]["dty"], ITE(marked, tm.or_(v.te[i]["dty"], wm), v.te[i]["dty"]))))
    # --------------------------------------------------------------- dirty
    Dmark = OR(*[AND(NOT(zomb[i]), mt[i], dy[i]) for i in range(n)])
    I["dirty_kept"] = IMP(D, Dmark)
    for i in range(n):
        I[f"written_back{i}"] = IMP(AND(zomb[i], mt[i], OR(dy[i], s_row[i]["val"])), NOT(D))
    covw = lambda x: AND(ty(x["type"], WRITE), c.covers_word(x["type"], x["len"], x["addr"]))
    cov = lambda x: AND(ty(x["type"], WRITE), c.covers(x["type"], x["len"], x["addr"]))
    wr2 = OR(AND(hitp2, T2("WRITE_REQ")), T2("REPLAY_WRITE"))
    # the looked-up ways: valid with a matching tag / invalid but dirty with one
    hitv = [AND(v.te[i]["val"], EQ(v.te[i]["tag"], v.c1_tag)) for i in range(n)]
    hitd = [AND(NOT(v.te[i]["val"]), tm.nonzero(v.te[i]["dty"]), EQ(v.te[i]["tag"], v.c1_tag)) for i in range(n)]
    hit1 = OR(*hitv)
    wr1s = AND(v.wst, OR(AND(T1("WRITE_REQ"), NOT(ev2), hit1), T1("REPLAY_WRITE")))   # already written, stalled
    tag1 = OR(wr1s, T1("REPLAY_WRITE"))
    W_tag = OR(AND(wr2, covw(e[0])), AND(tag1, covw(y)))
    W_tag0 = AND(isF("REPLAY"), ms_rw, covw(e[0]))
    I["dirty_only_if"] = IMP(Dmark, OR(D, W_tag, W_tag0))
    amo_sent = AND(e[0]["v"], rdq, is_amo(e[0]["type"]), EQ(EXT(e[0]["addr"], 2, c.aw), EXT(c.A, 2, c.aw)))
    I["clean_is_memory"] = IMP(AND(NOT(D), NOT(X), NOT(amo_sent)), EQ(M, B))
    I["flush_done_D"] = IMP(OR(T1("REPLAY_FLUSH"), T2("REPLAY_FLUSH")), NOT(D))
    I["amo_sent_clean"] = IMP(amo_sent, NOT(D))
    # --------------------------------------------------------------- data
    phys = B
    phys = ITE(AND(wr2, cov(e[0])), c.wbyte(e[0]), phys)
    phys = ITE(AND(wr1s, cov(y)), c.wbyte(y), phys)
    Xp = AND(X, NOT(AND(wr2, cov(e[0]))), NOT(AND(wr1s, cov(y))))
    rbyte = [c.linebyte(r) for r in v.drow]
    for i in range(n):
        trust = OR(dy[i], AND(s_row[i]["val"], NOT(AND(isF("REPLAY"), ms_rw, ms_on[i]))))
        wpend = AND(isF("REPLAY"), ms_rw, ms_on[i], NOT(OR(*[AND(EQ(c.Aword, C(k, c.Aword.w)), EXT(v.ms_dirty_bits, k, k + 1)) for k in range(c.nw)])))
        I[f"data{i}"] = IMP(AND(NOT(zombd[i]), mt[i], trust, NOT(wpend), NOT(Xp)), EQ(rbyte[i], phys))
    more(c, v, I, locals())
    liveness(c, v, locals())
    if c.timing:
        timing(c, v, I, locals())
    return I


def timing(c, v, I, L):
    """how old the requests in flight can be, stage by stage"""
    W = c.agew
    T1, T2, isF, e, q, ne = v.isT1, v.isT2, v.isF, c.e, c.q, v.ne
    age, blk, nwb, up = (c.GT[k] for k in ("age", "blk", "nwb", "up"))
    N = c.nlines
    le = lambda t, k, *x: tm.ule(t, sum_terms(C(k, W), *x))
    P1, P2, PR1, PR2, evp = (L[k] for k in ("P1", "P2", "PR1", "PR2", "evp"))
    ay = ITE(P2, age[1], age[0])
    by = ITE(P2, blk[1], blk[0])
    rw0 = OR(EQ(e[0]["type"], C(READ, 4)), EQ(e[0]["type"], C(WRITE, 4)))
    ms_rw, ms_amo = L["ms_rw"], L["ms_amo"]
    rw_amo = OR(ms_rw, ms_amo)
    I["t_none"] = AND(IMP(NOT(e[0]["v"]), AND(EQ(age[0], C(0, W)), EQ(nwb, C(0, W)), EQ(blk[0], C(0, 2)))))
    I["t_nwb"] = IMP(AND(e[0]["v"], NOT(EQ(e[0]["type"], C(FLUSH, 4)))), EQ(nwb, tm.zext(c.G["wbs"], W)))
    I["t_nwb_fresh"] = IMP(AND(e[0]["v"], OR(AND(P1, NOT(P2)), L["hitp2"], evp)), AND(EQ(nwb, C(0, W)), NOT(c.G["wbs"])))
    I["t_m1"] = IMP(AND(P1, NOT(evp)), AND(EQ(ay, C(0, W)), EQ(by, C(0, 2))))
    I["t_ev"] = IMP(evp, le(age[0], 1))
    I["t_hit2"] = IMP(L["hitp2"], le(age[0], 1))
    I["t_hit2_blk"] = IMP(L["hitp2"], ITE(EQ(e[0]["type"], C(READ, 4)), EQ(blk[0], C(0, 2)), NOT(tm.ult(C(1, 2), blk[0]))))
    I["t_tosend"] = IMP(L["tosend"], le(age[0], 1, nwb))
    I["t_wait"] = IMP(AND(ne, rw_amo, isF("READY"), NOT(L["tosend"])), le(age[0], 2, nwb))
    I["t_refill"] = IMP(AND(ne, rw_amo, isF("REPLAY")), le(age[0], 3, nwb))
    I["t_pr1"] = IMP(T1("REPLAY_READ", "REPLAY_WRITE"), le(age[0], 4, nwb))
    I["t_pr2"] = IMP(T2("REPLAY_READ", "REPLAY_WRITE"), le(age[0], 5, nwb))
    I["t_amo1"] = IMP(T1("REPLAY_AMO"), le(age[0], 3, nwb))
    I["t_amo2"] = IMP(T2("REPLAY_AMO"), le(age[0], 4, nwb))
    # walks: counter and age move together
    cw = tm.zext(v.cnt, W)
    I["t_inv"] = IMP(AND(ne, L["ms_inv"], isF("INV")), tm.ule(age[0], tm.sub(C(N - 1, W), cw)))
    I["t_inv_r"] = IMP(AND(ne, L["ms_inv"], isF("REPLAY")), le(age[0], N))
    I["t_inv1"] = IMP(T1("REPLAY_INV"), le(age[0], N + 1))
    I["t_inv2"] = IMP(T2("REPLAY_INV"), le(age[0], N + 2))
    last = EQ(v.cnt, C(-1, v.cnt.w))
    done = ITE(AND(last, NOT(T2("FLUSH_START"))), C(N, W), tm.sub(C(N - 1, W), cw))
    fl = AND(ne, L["ms_fl"])
    I["t_fl_cnt"] = IMP(AND(fl, isF("FLUSH")), NOT(last))
    lef = lambda k: tm.ule(age[0], sum_terms(done, nwb, nwb, nwb, C(k, W)))
    end = lambda k: le(age[0], N + k, nwb, nwb, nwb)
    pend = OR(T1("FLUSH_READ"), L["fsend"])     # a write-back may still follow
    I["t_fl_walk"] = IMP(AND(fl, isF("FLUSH")), lef(0))
    I["t_fl_send"] = IMP(AND(fl, isF("FLUSH_WAIT"), L["fsend"]), lef(1))
    I["t_fl_wait"] = IMP(AND(fl, isF("FLUSH_WAIT"), NOT(L["fsend"])), lef(-1))
    I["t_fl_end"] = IMP(AND(fl, isF("REPLAY")), end(0))
    I["t_fl1"] = IMP(T1("REPLAY_FLUSH"), end(1))
    I["t_fl2"] = IMP(T2("REPLAY_FLUSH"), end(2))
    I["t_nwb_max"] = IMP(fl, tm.ule(nwb, ITE(pend, tm.sub(done, C(1, W)), done)))
    I["t_nwb_end"] = le(nwb, N)
    I["t_fwait_send"] = IMP(AND(fl, isF("FLUSH_WAIT"), EQ(nwb, C(0, W))), L["fsend"])
    # initialization: one line per cycle from the top
    u = tm.zext(up, W)
    I["t_up"] = tm.ule(u, C(N, W))
    I["t_init"] = IMP(isF("INIT"), EQ(tm.add(u, cw), C(N - 1, W)))


def liveness(c, v, L):
    """Ranking function: over every cycle in which the oldest request is not
    answered the rank does not grow, and it falls whenever neither side is
    holding the cache up.  Together with `idle_ready` every accepted request
    is answered and the cache always becomes ready again."""
    e, q, T1, T2, isF, p = c.e, c.q, v.isT1, v.isT2, v.isF, c.p
    lw = v.cnt.w
    P = lambda maj, cnt, sub: tm.concat(C(maj, 3), cnt, sub if not isinstance(sub, int) else C(sub, 4))
    z = C(0, lw)
    ms_fl, ms_inv, ms_rw, ms_amo = L["ms_fl"], L["ms_inv"], L["ms_rw"], L["ms_amo"]
    q0, q1, ne, men0 = q[0]["v"], q[1]["v"], v.ne, v.men0
    miss = ITE(L["tosend"], C(8, 4), ITE(q1, C(7, 4), ITE(q0, C(6, 4), C(5, 4))))
    wait = ITE(L["fsend"], C(13, 4), ITE(q0, C(12, 4), C(11, 4)))
    last = EQ(v.cnt, C(-1, lw))
    fl = ITE(isF("FLUSH_WAIT"), ITE(last, P(1, z, wait), P(2, v.cnt, wait)),
             ITE(isF("FLUSH"), P(2, v.cnt, ITE(T1("FLUSH_READ"), C(15, 4), C(5, 4))),
                 P(1, z, ITE(T1("FLUSH_READ"), C(15, 4), C(5, 4)))))
    rank = P(0, z, 0)
    cases = [
        (L["P2"], P(0, z, 0)),
        (isF("INIT"), P(5, v.cnt, 0)),
        (L["evp"], P(2, z, 0)),
        (AND(L["P1"], T1("INV_START", "FLUSH_START")), P(2, v.cnt, 5)),
        (L["P1"], P(3, z, 0)),
        (AND(ne, ms_inv), ITE(isF("INV"), P(2, v.cnt, 0), P(1, z, 5))),
        (AND(ne, ms_fl), fl),
        (L["PR1"], P(1, z, 3)),
        (AND(ne, isF("REPLAY")), P(1, z, 4)),
        (ne, P(1, z, miss)),
    ]
    for g, t in reversed(cases):
        rank = ITE(g, t, rank)
    nx = tm.subst(rank, {k: c.nxt[k] for k in c.state}, {})
    pending = OR(e[0]["v"], isF("INIT"))
    free = OR(AND(p["cresp_rdy"], p["mreq_rdy"], IMP(q0, p["mresp_en"])), isF("INIT"))
    pop = p["cresp_en"]
    c.rank = rank
    c.live["rank_never_grows"] = IMP(AND(pending, NOT(pop)), tm.ule(nx, rank))
    c.live["rank_falls"] = IMP(AND(pending, free, NOT(pop)), tm.ult(nx, rank))
    c.live["idle_ready"] = IMP(NOT(pending), p["creq_rdy"])


def more(c, v, I, L):
    """evictions, flush write-backs, data in flight, LRU promise"""
    e, G, T1, T2, isF, n = c.e, c.G, v.isT1, v.isT2, v.isF, c.cfg.assoc
    B, M, D, X, rdq = (G[k] for k in ("B", "M", "D", "X", "rdq"))
    ne, ev2 = v.ne, v.ev2
    evp, rw1, fsend, cnt1, mt = L["evp"], L["rw1"], L["fsend"], L["cnt1"], L["mt"]
    row, way, inset, flat = v.row, L["way"], L["inset"], L["flat"]
    ms_rw, ms_amo, ms_inv, ms_on, zomb = (L[k] for k in ("ms_rw", "ms_amo", "ms_inv", "ms_on", "zomb"))
    is_amo, ty = c.is_amo, L["ty"]
    rbyte = L["rbyte"]
    found = [OR(L["hitv"][i], L["hitd"][i]) for i in range(n)]
    pu_hit, pu_way = OR(*found), C(0, v.hs_way.w)
    for i in range(n):
        pu_way = ITE(found[i], C(i, v.hs_way.w), pu_way)
    amo1 = T1("AMO_REQ")
    I["hs_hold"] = IMP(AND(amo1, v.wst, NOT(ev2)), AND(EQ(v.hs_hit, pu_hit), EQ(v.hs_way, pu_way)))
    I["hs_evict"] = IMP(AND(amo1, ev2), v.hs_hit)
    idxsh = log2n(n)
    cnt_idx = EXT(cnt1, idxsh, idxsh + c.idxw)
    # eviction in M2
    I["evict_mask"] = IMP(OR(evp, fsend), tm.nonzero(v.wm2))
    I["evict_index"] = IMP(evp, EQ(v.c2_index, v.c1_index))
    I["flush_index"] = IMP(fsend, EQ(v.c2_index, cnt_idx))
    I["flush_index1"] = IMP(T1("FLUSH_READ"), EQ(v.fidx1, cnt_idx))
    if n > 1:
        I["flush_way1"] = IMP(T1("FLUSH_READ"), EQ(v.utw1, EXT(cnt1, 0, idxsh)))
    for i in range(n):
        vict = AND(evp, inset(v.c1_index), ITE(rw1, EQ(v.rb, C(i, 1)), way(v.hs_way, i)))
        fl = AND(fsend, EQ(cnt1, flat(i)))
        same = AND(EQ(v.c2_tag, row[i]["tag"]), EQ(v.wm2, row[i]["dty"]))
        I[f"evict_row{i}"] = IMP(vict, same)
        I[f"evict_data{i}"] = IMP(AND(vict, mt[i]), EQ(c.linebyte(v.de), rbyte[i]))
        I[f"evict_amo_tag{i}"] = IMP(AND(vict, amo1), EQ(v.c1_tag, row[i]["tag"]))
        I[f"flush_row{i}"] = IMP(fl, same)
        I[f"flush_data{i}"] = IMP(AND(fl, mt[i]), EQ(c.linebyte(v.de), rbyte[i]))
        I[f"flush_seen{i}"] = IMP(AND(T1("FLUSH_READ"), EQ(cnt1, flat(i))), AND(
            EQ(v.te[i]["tag"], row[i]["tag"]), EQ(v.te[i]["dty"], row[i]["dty"])))
        rp = AND(T1("REPLAY_READ", "REPLAY_WRITE"), inset(v.c1_index), way(v.wp1, i))
        I[f"replay_way{i}"] = IMP(rp, AND(EQ(row[i]["tag"], v.c1_tag), row[i]["val"]))
        rw_ = AND(rp, T1("REPLAY_WRITE"))
        wm = c.wordmask(v.c1_type_, v.c1_len, v.c1_addr)
        I[f"replay_dirty{i}"] = IMP(rw_, EQ(tm.and_(row[i]["dty"], wm), wm))
        if n > 1:
            I[f"amo_rb{i}"] = IMP(AND(ms_on[i], ms_amo, v.ms_amo_hit), EQ(v.rb, C(i, 1)))
            I[f"evict_amo_rb{i}"] = IMP(AND(vict, amo1), EQ(v.rb, C(i, 1)))
        I[f"amo_row{i}"] = IMP(AND(ms_on[i], ms_amo, v.ms_amo_hit), EQ(row[i]["tag"], v.ms_tag))
        I[f"amo_done{i}"] = IMP(AND(OR(T1("REPLAY_AMO"), T2("REPLAY_AMO")), EQ(c.lineof(e[0]["addr"]), c.Aline)),
                                NOT(L["pres"][i]))
    hitread = OR(AND(L["hitp2"], T2("READ_REQ")), T2("REPLAY_READ"))
    I["read_line"] = IMP(AND(hitread, EQ(v.c2_line, c.Aline), NOT(X)), EQ(c.linebyte(v.de), B))
    # refill
    I["resp_line"] = IMP(AND(v.men0, ty(v.mt0, READ), EQ(v.ms_line, c.Aline), NOT(X), NOT(D)),
                         EQ(c.linebyte(v.md0), M))
    I["refill_line"] = IMP(AND(T1("REFILL"), EQ(v.ms_line, c.Aline), NOT(X), NOT(D)),
                           EQ(c.linebyte(v.c1_data), M))
    I["refill_addr"] = IMP(T1("REFILL"), AND(EQ(v.c1_index, v.ms_index), EQ(v.dm1, v.ms_dirty_bits),
                                             EQ(v.wp1, v.ms_repl)))
    # AMO result on its way back
    aw = EQ(EXT(e[0]["addr"], 2, c.aw), EXT(c.A, 2, c.aw))
    sel = lambda d: AND(IMP(aw, EQ(c.bytesel(EXT(d, 0, 32), EXT(c.A, 0, 2)), G["AO"])),
                        EQ(EXT(d, 32, d.w), C(0, d.w - 32)))
    I["amo_resp"] = IMP(AND(v.men0, is_amo(v.mt0)), sel(v.md0))
    I["amo_m1"] = IMP(T1("REPLAY_AMO"), sel(v.c1_data))
    I["amo_m2"] = IMP(T2("REPLAY_AMO"), sel(v.c2_data))
    # ------------------------------------------------------------------ LRU
    pres = G["pres"]
    done1 = AND(e[0]["v"], NOT(AND(L["P1"], NOT(L["P2"]))))
    o = e[0]
    oline = c.lineof(o["addr"])
    orw, oinv, oamo = ty(o["type"], READ, WRITE), ty(o["type"], INV), is_amo(o["type"])
    mine = AND(orw, EQ(oline, c.Aline))
    sameset = AND(orw, EQ(EXT(o["addr"], c.offw, c.offw + c.idxw), c.Aidx), NOT(mine))
    dist = OR(oinv, AND(oamo, EQ(oline, c.Aline)))
    if n == 1:
        dist = OR(dist, sameset)
    else:
        dist = OR(dist, AND(sameset, G["oth"], tm.ne(oline, G["othl"])))
    dist = OR(AND(done1, dist), AND(e[0]["v"], OR(oinv, AND(oamo, EQ(oline, c.Aline)))),
              AND(e[1]["v"], ty(e[1]["type"], INV)))
    live = AND(pres, NOT(dist))
    inrow = [AND(mt[i], row[i]["val"], NOT(AND(ms_on[i], ms_rw))) for i in range(n)]
    I["lru_present"] = IMP(live, OR(*inrow))
    I["served_present"] = IMP(AND(e[0]["v"], L["P2"], mine, NOT(AND(e[1]["v"], ty(e[1]["type"], INV)))), OR(*inrow))
    I["served_dirty"] = IMP(AND(L["wr2"], L["covw"](e[0])), L["Dmark"])
    for i in range(n):
        I[f"gone{i}"] = IMP(AND(G["gone"], mt[i], row[i]["val"]), OR(L["uninit"][i], AND(e[0]["v"], mine, rdq)))
    I["gone_d"] = IMP(L["isF"]("INIT"), G["gone"])
    I["wbs"] = IMP(G["wbs"], AND(e[0]["v"], OR(rdq, L["tosend"], ty(e[0]["type"], FLUSH))))
    I["served_not_gone"] = IMP(AND(e[0]["v"], L["P2"], mine, NOT(rdq)), NOT(G["gone"]))
    I["evict_amo_line"] = IMP(AND(evp, amo1), EQ(v.c2_tag, v.c1_tag))
    I["wst_t2"] = IMP(v.wst, NOT(AND(L["idle2"], NOT(T2("REFILL")))))
    I["lru_not_own_miss"] = IMP(AND(pres, mine), NOT(OR(ne, rdq)))
    if n == 2:
        oth_e = OR(G["oth"], AND(done1, sameset))
        othl_e = ITE(AND(done1, sameset), oline, G["othl"])
        ot = EXT(othl_e, c.idxw, othl_e.w)
        I["oth_set"] = IMP(G["oth"], AND(EQ(EXT(G["othl"], 0, c.idxw), c.Aidx), tm.ne(G["othl"], c.Aline)))
        for i in range(2):
            k = 1 - i
            there = OR(AND(EQ(row[k]["tag"], ot), row[k]["val"]),
                       AND(ms_on[k], ms_rw, EQ(v.ms_tag, ot)))
            I[f"miss_mru{i}"] = IMP(AND(ms_on[i], ms_rw), NOT(EQ(v.rb, C(i, 1))))
            I[f"replay_mru{i}"] = IMP(AND(T1("REPLAY_READ", "REPLAY_WRITE"), inset(v.c1_index), way(v.wp1, i)),
                                      NOT(EQ(v.rb, C(i, 1))))
            I[f"served_mru{i}"] = IMP(AND(e[0]["v"], L["P2"], mine, inrow[i]), NOT(EQ(v.rb, C(i, 1))))
            I[f"lru_bit{i}"] = IMP(AND(live, inrow[i], EQ(v.rb, C(i, 1))), AND(oth_e, there))
