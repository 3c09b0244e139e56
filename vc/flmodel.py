"""Contracts on the functional model (blocking_cache/BlockingCacheFL.py): the
real methods of ModelCache and HitMissTracker run on proxies (pyexec.py) from
an arbitrary state that satisfies the representation invariant.

Representation invariant
  mem: address of line (int) -> Bits(line width); a line not in it reads as 0
  tracker, per set: lru is a permutation of the ways, valid ways come before
    invalid ones in it, valid ways hold different tags of the tag's width
Abstraction: memory content (total function), per set the list of cached tags,
most recent first.
"""
import collections
import importlib.util
import itertools
import os
import sys
import time

from . import env
from . import pyexec as px
import z3

SRC = os.path.join(env.REPO, "blocking_cache", "BlockingCacheFL.py")
AMO = dict(AMO_ADD=3, AMO_AND=4, AMO_OR=5, AMO_SWAP=6, AMO_MIN=7, AMO_MINU=8, AMO_MAX=9, AMO_MAXU=10, AMO_XOR=11)
READ, WRITE, INIT, INV, FLUSH = 0, 1, 2, 14, 15


class FLConfig:
    def __init__(self, nbytes, assoc, line=128, data=32, nbanks=0):
        self.nbytes, self.assoc, self.line, self.data, self.nbanks = nbytes, assoc, line, data, nbanks

    def __str__(self):
        return f"FL({self.nbytes}B, {self.assoc}-way, {self.line}b line, {self.data}b data, {self.nbanks} banks)"

    def types(self):
        from mem_ifcs.MemMsg import mk_mem_msg
        return mk_mem_msg(8, 32, self.data, has_wr_mask=False) + mk_mem_msg(8, 32, self.line)

    @property
    def off(self):
        return (self.line // 8).bit_length() - 1

    @property
    def nsets(self):
        return self.nbytes * 8 // self.line // self.assoc

    @property
    def bankbits(self):
        return self.nbanks.bit_length() - 1 if self.nbanks else 0

    @property
    def idx_lo(self):
        return self.off + self.bankbits

    @property
    def idx_hi(self):
        return self.idx_lo + self.nsets.bit_length() - 1

    def lens(self):
        """(len field, bytes): powers of two up to the data width"""
        n = self.data // 8
        return [(0, n)] + [(1 << k, 1 << k) for k in range(n.bit_length() - 1)]


def load(name="_fl_under_contract"):
    """a private import of /repo's module"""
    spec = importlib.util.spec_from_file_location(name, SRC)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


class Rows:
    """a list of per-set rows, symbolic index; rows appear when accessed"""

    def __init__(self, st, kind, n):
        self.st, self.kind, self.n = st, kind, n

    def __len__(self):
        return self.n

    def __iter__(self):
        return (self[i] for i in range(self.n))

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise px.Unsupported("slice of rows")
        return getattr(self.st.row(i, self.n), self.kind)

    def __setitem__(self, i, v):
        setattr(self.st.row(i, self.n), self.kind, v)


class Row:
    def __init__(self, ctx, cfg, key, tags):
        self.key, self.ctx, self.cfg, self.tags = key, ctx, cfg, tags
        W = cfg.assoc
        self.tagw = 32 - cfg.idx_hi
        self.v0 = [ctx.fresh("valid", 0) for _ in range(W)]
        self.t0 = [ctx.fresh("tag", self.tagw) for _ in range(W)]
        for a, b in itertools.combinations(range(W), 2):
            ctx.assume(z3.Implies(z3.And(self.v0[a], self.v0[b]), self.t0[a] != self.t0[b]))
        self.valid = [px.SymBool(x) for x in self.v0]
        self.line = [LazyTag(self, w) for w in range(W)]
        self._lru = None
        self.o0 = None

    @property
    def lru(self):
        if self._lru is None:
            self.order()
        return self._lru

    @lru.setter
    def lru(self, v):
        if self._lru is None:
            self.order()
        self._lru = v

    def order(self):
        c = self.ctx
        self.o0 = c.choose(list(itertools.permutations(range(self.cfg.assoc))))
        for a, b in zip(self.o0, self.o0[1:]):
            c.assume(z3.Implies(self.v0[b], self.v0[a]))
        if not c.feasible(z3.BoolVal(True)):
            raise px.Infeasible()
        self._lru = list(self.o0)


class LazyTag:
    """what an entry holds in the initial state: a tag if valid, else a tag or
    what the constructor puts there"""

    def __init__(self, row, way):
        self.row, self.way, self.x, self.old = row, way, None, False

    def get(self):
        if self.x is None:
            r = self.row
            c = r.ctx
            if c.fork(z3.Or(r.v0[self.way], c.fresh("oldtag", 0))):
                self.x = px.SymBits(r.tagw, r.t0[self.way])
                if r.tags[0] == "int":
                    self.x = px.to_int(self.x)
                self.old = True
            else:
                k = r.tags[1]
                self.x = px.mkBits(k.nbits, int(k)) if isinstance(k, px.RealBits) else k
        return self.x

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.get(), n)

    def __hash__(self):
        raise px.Unsupported("hash of a symbolic value")


for _n in ("eq", "ne", "lt", "le", "gt", "ge", "add", "and", "or", "xor", "getitem", "bool", "int", "index", "invert"):
    def _mk(nm):
        def f(self, *a):
            return getattr(self.get(), nm)(*[x.get() if isinstance(x, LazyTag) else x for x in a])
        return f
    setattr(LazyTag, f"__{_n}__", _mk(f"__{_n}__"))


class State:
    def __init__(self, ctx, cfg, tags):
        self.ctx, self.cfg, self.rows, self.tags = ctx, cfg, [], tags

    def row(self, i, n):
        if isinstance(i, px.SymBool):
            i = px.to_int(i)
        t = px.SymInt.term(i)
        if self.ctx.fork(z3.Or(t < -n if isinstance(i, (int, px.SymInt)) else z3.BoolVal(False), t >= n)):
            raise IndexError("row index out of range")
        if isinstance(i, int) and i < 0:
            t = px.SymInt.term(i + n)
        t = px.simp(t)
        for r in self.rows:
            if r.key.eq(t) or self.ctx.fork(r.key == t):
                return r
        r = Row(self.ctx, self.cfg, t, self.tags)
        self.rows.append(r)
        return r


class Entry:
    def __init__(self, kind, key, present, value):
        self.kind, self.key, self.present0, self.present = kind, key, present, present
        self.v0 = value
        self.value = px.SymBits(value.size(), value) if value is not None else None


class Mem:
    """the dict from line address to Bits(line), arbitrary content"""

    factory = None

    def __init__(self, ctx, cfg, kind="int", empty=False, like=None):
        if isinstance(like, collections.defaultdict):
            self.factory = like.default_factory
        self.ctx, self.cfg, self.kind, self.es, self.empty = ctx, cfg, kind, [], empty

    def _key(self, k):
        if isinstance(k, px.SymBits):
            return ("bits", k.nbits), k.t
        if isinstance(k, (int, px.SymInt, px.SymBool)) or isinstance(k, px.RealBits):
            if isinstance(k, px.RealBits):
                return ("bits", k.nbits), z3.BitVecVal(int(k), k.nbits)
            return "int", px.SymInt.term(k)
        raise px.Unsupported(f"dict key {type(k).__name__}")

    def entry(self, k):
        kind, t = self._key(k)
        t = px.simp(t)
        for e in self.es:
            if e.kind == kind and (e.key.eq(t) or self.ctx.fork(e.key == t)):
                return e
        c = self.ctx
        if kind == self.kind and not self.empty:
            here = c.fresh("present", 0)
            if kind == "int":
                here = z3.And(here, t >= 0, t < (1 << (32 - self.cfg.off)))
            e = Entry(kind, t, here, c.fresh("line", self.cfg.line))
        else:
            e = Entry(kind, t, z3.BoolVal(False), None)
        self.es.append(e)
        return e

    def __contains__(self, k):
        return self.ctx.fork(self.entry(k).present)

    def __getitem__(self, k):
        e = self.entry(k)
        if not self.ctx.fork(e.present):
            if self.factory is None:
                raise KeyError(repr(k))
            e.present, e.value = z3.BoolVal(True), self.factory()
        return e.value

    def __setitem__(self, k, v):
        e = self.entry(k)
        e.present, e.value = z3.BoolVal(True), v

    def get(self, k, d=None):
        e = self.entry(k)
        return e.value if self.ctx.fork(e.present) else d

    def setdefault(self, k, d=None):
        e = self.entry(k)
        if not self.ctx.fork(e.present):
            e.present, e.value = z3.BoolVal(True), d
        return e.value

    def keys(self):
        return self

    def abs0(self, e):
        z = z3.BitVecVal(0, self.cfg.line)
        return z if e.v0 is None else z3.If(e.present0, e.v0, z)

    def abs1(self, e):
        z = z3.BitVecVal(0, self.cfg.line)
        if e.value is None or z3.is_false(px.simp(e.present)):
            return z
        v = e.value
        if not isinstance(v, (px.SymBits, px.RealBits)) or v.nbits != self.cfg.line:
            return None
        return z3.If(e.present, px.bits_of(v, self.cfg.line), z)

    def good(self, e):
        """representation invariant of the entry afterwards"""
        return e.kind == self.kind or z3.is_false(px.simp(e.present))


class Msg:
    """stands for a message class: records the fields, with the class's checks"""

    def __init__(self, cls):
        self.cls = cls
        import dataclasses
        self.fields = list(cls.__bitstruct_fields__.items())
        self.bits = {n: t.nbits for n, t in self.fields}

    def __call__(self, *a, **k):
        m = MsgVal()
        m.cls = self
        names = [n for n, _ in self.fields]
        if len(a) > len(names):
            raise TypeError("too many message fields")
        vals = dict(zip(names, a))
        vals.update(k)
        for n, _ in self.fields:
            setattr(m, n, px.mkBits(self.bits[n], vals.get(n, 0)))
        if set(vals) - set(names):
            raise TypeError("unknown message field")
        return m

    def get_field_type(self, n):
        return self.cls.get_field_type(n)


class MsgVal:
    pass


class StubTracker:
    """the tracker's contract: called once per access; the answer is free"""

    def __init__(self, ctx):
        self.ctx, self.calls = ctx, []

    def access_address(self, addr):
        h = px.SymBool(self.ctx.fresh("hit", 0))
        self.calls.append(("access", addr, h))
        return h

    def amo_req(self, addr):
        self.calls.append(("amo", addr, None))

    def invalidate(self):
        self.calls.append(("inv", None, None))


def model(mod, cfg):
    return mod.ModelCache(cfg.nbytes, cfg.assoc, cfg.nbanks, *cfg.types())


def key_kind(cfg):
    """how the real model keys its memory: from a concrete run"""
    m = load("_fl_probe")
    c = model(m, cfg)
    from pymtl3 import Bits32
    c.write(Bits32(0x1000), 5, 0, 0)
    ks = list(c.mem)
    if type(c.mem) not in (dict, collections.defaultdict) or [int(k) for k in ks] != [0x1000 >> cfg.off] or \
            [getattr(v, "nbits", 0) for v in c.mem.values()] != [cfg.line]:
        raise px.Unsupported("memory representation")
    if len(ks) == 1 and type(ks[0]) is int:
        return "int"
    if len(ks) == 1 and isinstance(ks[0], px.RealBits):
        return ("bits", ks[0].nbits)
    raise px.Unsupported("memory representation")


def check_shape(c):
    t = c.tracker
    if not (isinstance(c.mem, dict) and isinstance(c.transactions, list)):
        raise px.Unsupported("ModelCache representation")
    for n in ("line", "valid", "lru"):
        x = getattr(t, n, None)
        if type(x) is not list or not x or type(x[0]) is not list:
            raise px.Unsupported("HitMissTracker representation")


def probe_order(cfg):
    """lru[set][0] is the way used last"""
    t = model(load("_fl_probe"), cfg).tracker
    check_shape_tracker(t)
    for a in (0, 1 << 31):
        t.access_address(a)
        ways = [w for w in range(cfg.assoc) if t.valid[0][w] and int(t.line[0][w]) == a >> cfg.idx_hi]
        if len(ways) != 1 or t.lru[0][0] != ways[0]:
            raise px.Unsupported("HitMissTracker representation")


def probe_tags(cfg):
    """how a tag is stored, and what an entry holds before: each an int or Bits"""
    t = model(load("_fl_probe"), cfg).tracker
    old = t.line[0][0]
    from pymtl3 import Bits32
    t.access_address(Bits32(1 << 31))
    new = [t.line[0][w] for w in range(cfg.assoc) if t.valid[0][w]]
    if len(new) == 1 and (old is None or type(old) is int or isinstance(old, px.RealBits)):
        if type(new[0]) is int:
            return "int", old
        if isinstance(new[0], px.RealBits) and new[0].nbits == 32 - cfg.idx_hi:
            return "bits", old
    raise px.Unsupported("HitMissTracker representation")


def check_shape_tracker(t):
    if not all(type(x) is bool for x in t.valid[0]) or sorted(t.lru[0]) != list(range(len(t.valid[0]))):
        raise px.Unsupported("HitMissTracker representation")


class FLEnv:
    """a module instance with proxies installed and a concrete ModelCache to
    take the configuration fields from"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.kind = key_kind(cfg)
        self.real = model(load("_fl_conf"), cfg)
        check_shape(self.real)
        probe_order(cfg)
        self.tags = probe_tags(cfg)
        self.mod = load()
        px.install(self.mod)

    def model(self, ctx, stub):
        """an arbitrary state"""
        mod, cfg = self.mod, self.cfg
        c = mod.ModelCache.__new__(mod.ModelCache)
        c.__dict__.update(self.real.__dict__)
        c.CacheReqType, c.CacheRespType, c.MemReqType, c.MemRespType = [Msg(x) for x in cfg.types()]
        c.BitsData = px.BitsN(cfg.data)
        for k, v in self.real.__dict__.items():
            if isinstance(v, type) and issubclass(v, px.RealBits) and k != "BitsData":
                setattr(c, k, px.BitsN(v.nbits))
        like = None
        if isinstance(self.real.mem, collections.defaultdict):
            like = mod.ModelCache(cfg.nbytes, cfg.assoc, cfg.nbanks, *[Msg(x) for x in cfg.types()]).mem
        c.mem = Mem(ctx, cfg, self.kind, like=like)
        c.transactions = []
        c.opaque = px.SymInt(ctx.fresh("count", px.IW))
        if stub:
            c.tracker = StubTracker(ctx)
        else:
            c.tracker = self.tracker(ctx)
        return c

    def tracker(self, ctx):
        t = self.mod.HitMissTracker.__new__(self.mod.HitMissTracker)
        t.__dict__.update(self.real.tracker.__dict__)
        st = State(ctx, self.cfg, self.tags)
        for n in ("valid", "line", "lru"):
            setattr(t, n, Rows(st, n, len(getattr(self.real.tracker, n))))
        t._state = st
        return t


# --- specification ---------------------------------------------------------

def amo_spec(k, m, a):
    lt, ult = m < a, z3.ULT(m, a)
    return {3: m + a, 4: m & a, 5: m | a, 6: a, 7: z3.If(lt, m, a), 8: z3.If(ult, m, a), 9: z3.If(lt, a, m),
            10: z3.If(ult, a, m), 11: m ^ a}[k]


def put(line, off, x):
    """line with bits [off, off+w) replaced"""
    n, w = line.size(), x.size()
    ps = []
    if off + w < n:
        ps.append(z3.Extract(n - 1, off + w, line))
    ps.append(x)
    if off:
        ps.append(z3.Extract(off - 1, 0, line))
    return z3.Concat(*ps) if len(ps) > 1 else x


class Out:
    """collected verification conditions"""

    def __init__(self):
        self.vcs = {}

    def add(self, name, status, model=None, secs=0.0):
        n = self.vcs.setdefault(name, [0, 0, None, 0.0])
        n[0] += 1
        n[3] += secs
        if status == "proved":
            n[1] += 1
        elif n[2] is None:
            n[2] = (status, model)

    def goal(self, ctx, name, g):
        t0 = time.time()
        s, m = px.prove(ctx, g if not isinstance(g, bool) else z3.BoolVal(g))
        self.add(name, s, m, time.time() - t0)

    def results(self, prefix):
        out = []
        for n, (tot, ok, bad, secs) in sorted(self.vcs.items()):
            out.append((f"{prefix}: {n} ({tot} paths)", "proved" if tot == ok else bad[0], bad and bad[1], secs))
        return out


def same(x, w, t):
    """x (a message field) equals the term t of width w"""
    return x.t == t if isinstance(x, px.SymBits) and x.nbits == w else z3.BoolVal(False)


def trans_vcs(o, ctx, c, cfg, kind, opq, addr, ln, qdata, hit, rdata):
    """exactly one request/response pair was appended, with these fields"""
    T = c.transactions
    o.goal(ctx, "one request and one response are recorded", len(T) == 2)
    if len(T) != 2:
        return
    q, r = T
    ok = isinstance(q, MsgVal) and isinstance(r, MsgVal) and q.cls.cls is cfg_types(cfg)[0] and r.cls.cls is cfg_types(cfg)[1]
    o.goal(ctx, "the records are a client request and a client response", ok)
    if not ok:
        return
    lw = q.cls.bits["len"]
    k4 = z3.BitVecVal(kind, 4)
    o.goal(ctx, "request fields", z3.And(same(q.type_, 4, k4), same(q.opaque, 8, opq), same(q.addr, 32, addr),
                                         same(q.len, lw, z3.BitVecVal(ln, lw)), same(q.data, cfg.data, qdata)))
    o.goal(ctx, "response type, opaque and len", z3.And(
        same(r.type_, 4, k4), same(r.opaque, 8, opq), same(r.len, lw, z3.BitVecVal(ln, lw))))
    o.goal(ctx, "response test bit", same(r.test, 2, hit))
    o.goal(ctx, "response data", same(r.data, cfg.data, rdata))


_types = {}


def cfg_types(cfg):
    k = (cfg.data, cfg.line)
    if k not in _types:
        _types[k] = cfg.types()
    return _types[k]


def mem_vcs(o, ctx, c, hi, new):
    """only the addressed line changes, to new(old)"""
    M = c.mem
    held = {id(v) for k, v in c.__dict__.items()}
    for n in c.transactions:
        held |= {id(v) for v in vars(n).values()} if isinstance(n, MsgVal) else {id(n)}
    for e in M.es:
        if e.value is not None and not z3.is_false(px.simp(e.present)):
            o.goal(ctx, "memory lines are separate objects", isinstance(e.value, px.SymBits) and id(e.value) not in held)
            held.add(id(e.value))
        if not M.good(e):
            o.goal(ctx, "memory keeps its representation", False)
            continue
        a0, a1 = M.abs0(e), M.abs1(e)
        if a1 is None:
            o.goal(ctx, "memory keeps its representation", False)
            continue
        if hi is None:
            o.goal(ctx, "memory unchanged", a1 == a0)
        else:
            k = e.key
            h = z3.ZeroExt(k.size() - hi.size(), hi) if k.size() > hi.size() else hi
            o.goal(ctx, "memory: exactly the addressed bytes change", a1 == z3.If(k == h, new(a0), a0))
    if hi is not None and not M.es:
        # nothing touched: the line must be unchanged by the operation
        x = ctx.fresh("line", M.cfg.line)
        o.goal(ctx, "memory: exactly the addressed bytes change", new(x) == x)


def line_of(ctx, c, hi):
    """content of the addressed line before the call"""
    M = c.mem
    t = z3.ZeroExt(px.IW - hi.size(), hi) if M.kind == "int" else hi
    t = px.simp(t)
    r = None
    e = M.entry(px.SymInt(t) if M.kind == "int" else px.SymBits(hi.size(), t))
    return M.abs0(e)


def run_model(fe, op, off, ln, n, kind, deadline):
    """op: 'read' 'write' 'init' 'amo' 'invalidate' 'flush'"""
    cfg = fe.cfg
    o = Out()
    lw = (cfg.data // 8).bit_length() - 1

    def path(ctx):
        c = fe.model(ctx, True)
        before = dict(c.__dict__)
        count0 = c.opaque.t
        hi = ctx.fresh("lineaddr", 32 - cfg.off)
        addr_t = px.simp(z3.Concat(hi, z3.BitVecVal(off, cfg.off)))
        addr = px.SymBits(32, addr_t)
        opq_t = ctx.fresh("opq", 8)
        opq = px.SymBits(8, opq_t)
        len_ = px.SymBits(lw, z3.BitVecVal(ln, lw)) if lw else 0
        val_t = ctx.fresh("data", cfg.data)
        val = px.SymBits(cfg.data, val_t)
        # materialize the addressed line, so that its content before is known
        line0 = line_of(ctx, c, hi)
        z = lambda t: z3.ZeroExt(cfg.data - t.size(), t) if cfg.data > t.size() else t
        bits = 8 * n
        old = z3.Extract(8 * off + bits - 1, 8 * off, line0) if n else None
        zero = z3.BitVecVal(0, cfg.data)
        t0 = z3.BitVecVal(0, 2)
        try:
            if op == "read":
                c.read(addr, opq, len_)
            elif op == "write":
                c.write(addr, val, opq, len_)
            elif op == "init":
                c.init(addr, val, opq, len_)
            elif op == "amo":
                c.amo(addr, val, opq, len_, px.SymBits(4, z3.BitVecVal(kind, 4)))
            elif op == "invalidate":
                c.invalidate(opq)
            else:
                c.flush(opq)
        except (px.Unsupported, AttributeError, TypeError, NotImplementedError) as e:
            raise px.Unsupported(f"{type(e).__name__}: {e}")
        except Exception as e:      # noqa: BLE001
            s, m = px.prove(ctx, z3.BoolVal(False))
            o.add("no exception", "proved" if s == "proved" else "failed", f"{type(e).__name__}: {e}")
            return
        o.goal(ctx, "no exception", True)
        calls = c.tracker.calls
        hit = t0
        want = dict(read="access", write="access", init="access", amo="amo", invalidate="inv", flush=None)[op]
        if want is None:
            o.goal(ctx, "the tracker is not told of a flush", not calls)
        else:
            ok = len(calls) == 1 and calls[0][0] == want
            o.goal(ctx, "the tracker is told once", ok)
            if not ok:
                return
            if calls[0][1] is not None:
                a = calls[0][1]
                try:
                    a = px.bits_of(a, 32)
                except Exception:       # noqa: BLE001
                    a = None
                o.goal(ctx, "the tracker is told the address", a == addr_t if a is not None else False)
            if op in ("read", "write"):
                hit = z3.If(calls[0][2].t, z3.BitVecVal(1, 2), t0)
        mask = z3.Extract(bits - 1, 0, val_t) if n else None
        if op == "read":
            mem_vcs(o, ctx, c, None, None)
            trans_vcs(o, ctx, c, cfg, READ, opq_t, addr_t, ln, zero, hit, z(old))
        elif op in ("write", "init"):
            mem_vcs(o, ctx, c, hi, lambda x: put(x, 8 * off, mask))
            trans_vcs(o, ctx, c, cfg, WRITE if op == "write" else INIT, opq_t, addr_t, ln, val_t, hit, zero)
        elif op == "amo":
            w = z3.Extract(31, 0, val_t)
            mem_vcs(o, ctx, c, hi, lambda x: put(x, 8 * off, amo_spec(kind, z3.Extract(8 * off + 31, 8 * off, x), w)))
            trans_vcs(o, ctx, c, cfg, kind, opq_t, addr_t, ln, z(w), t0, z(old))
        else:
            mem_vcs(o, ctx, c, None, None)
            trans_vcs(o, ctx, c, cfg, INV if op == "invalidate" else FLUSH, opq_t, z3.BitVecVal(0, 32), 0, zero, t0, zero)
        # frame: nothing else of the object changes
        skip = {"opaque", "mem", "transactions", "tracker"}
        frame(c, before, skip)
    px.explore(path, deadline=deadline)
    return o


def frame(obj, before, state):
    """fields beyond the known state keep their value; otherwise the object has
    state this invariant does not describe"""
    for k, v in before.items():
        if k not in state and obj.__dict__.get(k) is not v:
            raise px.Unsupported(f"field {k} changes")


def run_tracker(fe, op, deadline):
    cfg = fe.cfg
    o = Out()
    W = cfg.assoc
    tagw = 32 - cfg.idx_hi

    def path(ctx):
        t = fe.tracker(ctx)
        st = t._state
        addr_t = ctx.fresh("addr", 32)
        addr = px.SymBits(32, addr_t)
        idx_t = z3.Extract(cfg.idx_hi - 1, cfg.idx_lo, addr_t)
        tag_t = z3.Extract(31, cfg.idx_hi, addr_t)
        key = px.simp(z3.ZeroExt(px.IW - idx_t.size(), idx_t))
        if op != "invalidate":
            # the row the specification speaks about
            row = st.row(px.SymInt.mk(key), cfg.nsets)
            row.lru
        before = dict(t.__dict__)
        try:
            r = getattr(t, op)(*([] if op == "invalidate" else [addr]))
        except (px.Unsupported, AttributeError, TypeError, NotImplementedError) as e:
            raise px.Unsupported(f"{type(e).__name__}: {e}")
        except Exception as e:      # noqa: BLE001
            s, m = px.prove(ctx, z3.BoolVal(False))
            o.add("no exception", "proved" if s == "proved" else "failed", f"{type(e).__name__}: {e}")
            return
        o.goal(ctx, "no exception", True)
        if op == "invalidate":
            # every set: no valid entry left, lru and tags as they were or still a permutation
            n = len(t.valid)
            o.goal(ctx, "rows keep one entry per way", n >= cfg.nsets and len(t.lru) >= cfg.nsets)
            ids = set()
            for i in range(min(n, cfg.nsets)):
                v = t.valid[i]
                ok = isinstance(v, list) and len(v) == W
                o.goal(ctx, "rows keep one entry per way", ok and id(v) not in ids)
                ids.add(id(v))
                if ok:
                    o.goal(ctx, "no line is cached afterwards", z3.Not(z3.Or(*[px.boolterm(x) for x in v])))
            for q in st.rows:
                if q._lru is not None:
                    o.goal(ctx, "replacement order stays a permutation of the ways",
                           isinstance(q.lru, list) and all(isinstance(w, int) for w in q.lru) and sorted(q.lru) == list(range(W)))
            if not isinstance(t.lru, Rows):
                o.goal(ctx, "replacement order stays a permutation of the ways", all(
                    sorted(t.lru[i]) == list(range(W)) for i in range(cfg.nsets)))
            frame(t, before, ("valid", "line", "lru"))
            return
        if not isinstance(t.valid, Rows) or not isinstance(t.line, Rows) or not isinstance(t.lru, Rows):
            raise px.Unsupported("rows replaced as a whole")
        frame(t, before, ())
        # specification
        pre = [(row.v0[w], row.t0[w]) for w in row.o0]
        hit_at = [z3.And(v, x == tag_t) for v, x in pre]
        hit = z3.Or(*hit_at)
        F, zt = z3.BoolVal(False), z3.BitVecVal(0, tagw)
        if op == "access_address":
            o.goal(ctx, "hit exactly if the line is among the cached ones", px.boolterm(r) == hit)
            post = [(z3.BoolVal(True), tag_t)]
            # position j>0 holds what was at j-1, up to where the line was found
            for j in range(1, W):
                earlier = z3.Or(*hit_at[:j])    # found before position j: later ones keep their place
                v = z3.If(earlier, pre[j][0], pre[j - 1][0])
                x = z3.If(earlier, pre[j][1], pre[j - 1][1])
                post.append((v, x))
        else:
            post = []
            for j in range(W):
                found = z3.Or(*hit_at[:j + 1])
                nv = pre[j + 1] if j + 1 < W else (F, zt)
                post.append((z3.If(found, nv[0], pre[j][0]), z3.If(found, nv[1], pre[j][1])))
        for q in st.rows:
            lru = q.lru
            perm = isinstance(lru, list) and all(isinstance(w, int) for w in lru) and sorted(lru) == list(range(W))
            o.goal(ctx, "replacement order stays a permutation of the ways", perm)
            shape = isinstance(q.valid, list) and isinstance(q.line, list) and len(q.valid) == W and len(q.line) == W
            if not perm or not shape:
                o.goal(ctx, "rows keep one entry per way", shape)
                continue
            now = []
            for w in lru:
                v = px.boolterm(q.valid[w])
                x = q.line[w]
                if isinstance(x, LazyTag):
                    x = x.x if x.x is not None and not x.old else px.SymBits(tagw, q.t0[w])
                elif q.tags[0] == "int" and isinstance(x, (int, px.SymInt)):
                    y = px.SymInt.term(x)
                    o.goal(ctx, "a valid entry holds a tag", z3.Implies(v, z3.LShR(y, tagw) == 0))
                    x = px.SymBits(tagw, z3.Extract(tagw - 1, 0, y))
                elif q.tags[0] == "int" and not isinstance(x, (px.SymBits, px.RealBits)):
                    x = None
                if isinstance(x, px.RealBits):
                    x = px.mkBits(x.nbits, int(x))
                if not isinstance(x, px.SymBits) or x.nbits != tagw:
                    o.goal(ctx, "a valid entry holds a tag", z3.Not(v))
                    now.append((v, zt))
                else:
                    now.append((v, x.t))
            if q is row:
                want = post
            else:
                want = [(q.v0[w], q.t0[w]) for w in (q.o0 or lru)]
            for j in range(W):
                o.goal(ctx, f"cached lines in order of use: position {j}" if q is row else "other sets unchanged",
                       z3.And(now[j][0] == want[j][0], z3.Implies(now[j][0], now[j][1] == want[j][1])))
    px.explore(path, deadline=deadline)
    return o


def init_vcs(cfg):
    """the constructor establishes the invariant (concrete execution: the
    constructor has no input besides the configuration and the memory image)"""
    o = Out()
    mod = load("_fl_init")
    c = model(mod, cfg)
    check_shape(c)
    t = c.tracker
    ns, W = cfg.nsets, cfg.assoc
    def add(n, ok):
        o.add(n, "proved" if ok else "failed")
    add("initially nothing is cached", len(t.valid) >= ns and not any(any(r) for r in t.valid))
    add("initially one entry per way and set", all(len(t.valid[i]) == W and len(t.line[i]) == W for i in range(ns)))
    add("initial replacement order is a permutation", len(t.lru) >= ns and all(
        sorted(r) == list(range(W)) for r in t.lru[:ns]))
    add("rows are separate objects", len({id(r) for r in t.valid} | {id(r) for r in t.lru} | {id(r) for r in t.line})
        == len(t.valid) + len(t.lru) + len(t.line))
    add("initial memory is empty", c.mem == {})
    add("no transaction yet", c.transactions == [] and c.get_transactions() is c.transactions)
    return o


def image_vcs(fe, deadline):
    """the loop over the memory image, by its invariant: after i pairs, memory
    holds the first i words.  zip() is the loop's iterator: it hands out one
    arbitrary pair in an arbitrary state satisfying the invariant."""
    cfg, o = fe.cfg, Out()

    class Image:
        def __bool__(self):
            return True

        def __getitem__(self, s):
            if isinstance(s, slice) and s.step == 2 and s.start in (None, 0, 1) and s.stop is None:
                return ("addr", "value")[1 if s.start == 1 else 0]
            raise px.Unsupported("use of the memory image")

    for off in range(0, cfg.line // 8, 4):
        def path(ctx):
            mod = fe.mod
            box = {}
            hi = ctx.fresh("lineaddr", 32 - cfg.off)
            val_t = ctx.fresh("word", 32)

            def zip_(*a):
                if a != ("addr", "value"):
                    raise px.Unsupported("zip over the memory image")
                o.goal(ctx, "image: nothing is in memory before the loop", box["c"].mem == {})
                box["c"].mem = M = Mem(ctx, cfg, fe.kind, like=box["c"].mem)
                box["M"] = M
                line_of(ctx, box["c"], hi)
                addr = px.SymInt(z3.ZeroExt(px.IW - 32, z3.Concat(hi, z3.BitVecVal(off, cfg.off))))
                yield addr, px.SymInt(z3.ZeroExt(px.IW - 32, val_t))
                if box["c"].mem is not M:
                    raise px.Unsupported("memory replaced in the loop")
                mem_vcs(o, ctx, box["c"], hi, lambda x: put(x, 8 * off, val_t))
                box["done"] = True
            mod.zip = zip_
            try:
                c = mod.ModelCache.__new__(mod.ModelCache)
                box["c"] = c
                ts = [Msg(x) for x in cfg.types()]
                c.__init__(cfg.nbytes, cfg.assoc, cfg.nbanks, *ts, Image())
            except px.Unsupported:
                raise
            except (AttributeError, TypeError) as e:
                raise px.Unsupported(f"{type(e).__name__}: {e}")
            except Exception as e:  # noqa: BLE001
                s, m = px.prove(ctx, z3.BoolVal(False))
                o.add("image: no exception", "proved" if s == "proved" else "failed", f"{type(e).__name__}: {e}")
                return
            finally:
                del mod.zip
            if not box.get("done"):
                raise px.Unsupported("the memory image is not read by zip")
        px.explore(path, deadline=deadline)
    return o
