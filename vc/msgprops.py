"""P20: the message types and the widths derived from the parameters, for every
parameter value.  The real constructor functions are executed with symbolic
integers (z3 Int) for the widths; mk_bits, clog2 and mk_bitstruct record their
arguments.  Sizes that are powers of two are 2^e with a symbolic exponent e."""
import importlib
import random
import time

import z3

from . import env  # noqa: F401
from .runner import Job, run

P2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())
CL = z3.Function("clog2", z3.IntSort(), z3.IntSort())


class Reach(Exception):
    """the code does something these integers do not model"""


class Ctx:
    def __init__(self, choices=()):
        self.pre, self.obl, self.choices, self.taken = [], [], list(choices), []

    def branch(self, t):
        """truth of t under the precondition; both ways are explored if it is open"""
        for v, q in ((True, t), (False, z3.Not(t))):
            if self.valid(q)[0]:
                return v
        k = len(self.taken)
        v = self.choices[k] if k < len(self.choices) else True
        self.taken.append(v)
        self.pre.append(t if v else z3.Not(t))
        return v

    def valid(self, t):
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*self.pre, z3.Not(t))
        r = s.check()
        return r == z3.unsat, (str(s.model()) if r == z3.sat else str(r))

    def need(self, t, text):
        self.obl.append((t, text))


C = None        # the context of the running path


def paths(body):
    """runs body once per feasible path"""
    def go():
        global C
        out, todo, n = [], [[]], 0
        while todo:
            n += 1
            if n > 64:
                return out + [("paths", "unreached", "too many paths", 0.0)]
            C = Ctx(todo.pop())
            out += body()
            todo += [C.taken[:k] + [False] for k in range(len(C.choices), len(C.taken))]
        return out
    return go


def expr(x):
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, bool) or not isinstance(x, int):
        raise Reach(f"{type(x).__name__} in integer arithmetic")
    return z3.IntVal(x)


class Sym:
    """a non-negative integer; exp: exponent if it is known to be a power of two"""

    def __init__(self, e, exp=None):
        self.e, self.exp = e, exp

    @staticmethod
    def pow2(exp):
        exp = z3.simplify(exp)
        if z3.is_int_value(exp):
            return 1 << exp.as_long()
        return Sym(P2(exp), exp)

    @staticmethod
    def exp_of(x):
        if isinstance(x, Sym):
            return x.exp
        if isinstance(x, int) and x > 0 and x & (x - 1) == 0:
            return z3.IntVal(x.bit_length() - 1)
        return None

    def __mul__(self, o):
        a, b = Sym.exp_of(self), Sym.exp_of(o)
        if a is not None and b is not None:
            return Sym.pow2(a + b)
        return Sym(self.e * expr(o))
    __rmul__ = __mul__

    def __floordiv__(self, o):
        a, b = Sym.exp_of(self), Sym.exp_of(o)
        if a is not None and b is not None:
            if not C.valid(a >= b)[0]:
                C.need(a >= b, "division of powers of two without remainder")
            return Sym.pow2(a - b)
        if isinstance(o, int) and o > 0:
            # (2^e + c) div 2^k with 0 <= c < 2^k
            off = getattr(self, "off", None)
            if off and b is not None and 0 <= off[1] < o and C.valid(off[0] >= b)[0]:
                return Sym.pow2(off[0] - b)
            return Sym(self.e / o)
        raise Reach("division by a symbolic number")

    def __rfloordiv__(self, o):
        if Sym.exp_of(o) is not None and self.exp is not None:
            return Sym(None, Sym.exp_of(o)) // self
        raise Reach("division by a symbolic number")

    def __truediv__(self, o):
        r = self // o       # exact for the powers of two; else out of reach
        if Sym.exp_of(self) is None or Sym.exp_of(o) is None:
            raise Reach("real division")
        return r

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            if self.exp is not None and Sym.exp_of(o) is not None and C.valid(self.exp >= Sym.exp_of(o))[0]:
                return 0
            return Sym(self.e % o)
        raise Reach("modulo")

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (1 << o)
        if isinstance(o, Sym):
            return self // Sym.pow2(o.e)
        raise Reach("shift")

    def __lshift__(self, o):
        return self * (1 << o) if isinstance(o, int) else self * Sym.pow2(expr(o))

    def __rlshift__(self, o):
        return o * Sym.pow2(self.e)

    def __rpow__(self, o):
        if o == 2:
            return Sym.pow2(self.e)
        raise Reach("power")

    def __add__(self, o):
        if isinstance(o, Sym) or not o == 0:
            r = Sym(self.e + expr(o))
            if self.exp is not None and isinstance(o, int):
                r.off = (self.exp, o)
            return r
        return self
    __radd__ = __add__

    def __sub__(self, o):
        return Sym(self.e - expr(o))

    def __rsub__(self, o):
        return Sym(expr(o) - self.e)

    def _cmp(self, t):
        return C.branch(t)

    def __eq__(self, o):
        return self._cmp(self.e == expr(o)) if isinstance(o, (int, Sym)) else NotImplemented

    def __ne__(self, o):
        return self._cmp(self.e != expr(o)) if isinstance(o, (int, Sym)) else NotImplemented

    def __lt__(self, o):
        return self._cmp(self.e < expr(o))

    def __le__(self, o):
        return self._cmp(self.e <= expr(o))

    def __gt__(self, o):
        return self._cmp(self.e > expr(o))

    def __ge__(self, o):
        return self._cmp(self.e >= expr(o))

    def __bool__(self):
        return self._cmp(self.e != 0)

    __hash__ = None

    def __format__(self, spec):
        return f"<{self.e}>"
    __str__ = __repr__ = lambda self: f"<{self.e}>"

    def bit_length(self):
        if self.exp is not None:
            return Sym(self.exp) + 1
        raise Reach("bit_length")


def clog2(n):
    if not isinstance(n, Sym):
        return max(0, (n - 1).bit_length())
    if n.exp is not None:
        s = z3.simplify(n.exp)
        return s.as_long() if z3.is_int_value(s) else Sym(s)
    off = getattr(n, "off", None)
    if off and off[1] == 1:
        return Sym(off[0]) + 1
    return Sym(CL(n.e))


class Width:
    """what mk_bits(n) returns"""

    def __init__(self, n):
        C.need(expr(n) > 0, "a Bits type has at least one bit")
        self.nbits = n

    def __repr__(self):
        return f"Bits<{self.nbits}>"


class Struct:
    def __init__(self, name, fields):
        self.name, self.fields = name, dict(fields)

    def get_field_type(self, f):
        return self.fields[f]

    def widths(self):
        return [(k, v.nbits if not isinstance(v, Struct) else v) for k, v in self.fields.items()]


class Swap:
    """the recording constructors in place of PyMTL3's, in the modules under proof"""
    NEW = dict(mk_bits=Width, clog2=clog2, int=lambda x, *a: x if isinstance(x, Sym) else int(x, *a),
               mk_bitstruct=lambda name, fields, **k: Struct(name, fields))

    def __init__(self, *mods):
        self.mods = [importlib.import_module(m) for m in mods]

    def __enter__(self):
        self.old = [{k: m.__dict__[k] for k in self.NEW if k in m.__dict__} for m in self.mods]
        for m in self.mods:
            m.__dict__.update(self.NEW)

    def __exit__(self, *a):
        for m, old in zip(self.mods, self.old):
            for k in self.NEW:
                m.__dict__.pop(k, None)
            m.__dict__.update(old)


MM = "mem_ifcs.MemMsg"
REQ = ["type_", "opaque", "addr", "len", "wr_mask", "data"]
RESP = ["type_", "opaque", "test", "len", "wr_mask", "data"]


def want_msg(kind, mask, opq, addr, data, cl, words):
    w = dict(type_=4, opaque=opq, addr=addr, test=2, len=cl, wr_mask=words, data=data)
    return [(n, w[n]) for n in (REQ if kind == "req" else RESP) if mask or n != "wr_mask"]


def msg_job(mask, pow2):
    def go():
        t0 = time.time()
        opq, addr = Sym(z3.Int("opq")), Sym(z3.Int("addr"))
        if pow2:
            k = z3.Int("log2_data")
            data = Sym.pow2(k)
            C.pre = [opq.e > 0, addr.e > 0, k >= 5, k <= 9]
            cl, words = Sym(k - 3), Sym.pow2(k - 5)
        else:
            data = Sym(z3.Int("data"))
            C.pre = [opq.e > 0, addr.e > 0, data.e >= 32, data.e < 1024, CL(data.e / 8) > 0]
            cl, words = Sym(CL(data.e / 8)), Sym(data.e / 32)
        C.pre += pow2_facts()
        out = []

        def goal(n, t):
            ok, m = C.valid(t)
            out.append((n, "proved" if ok else "failed", None if ok else m, time.time() - t0))
        try:
            m = importlib.import_module(MM)
            with Swap(MM):
                req, resp = m.mk_mem_msg(opq, addr, data, has_wr_mask=mask)
                d = m.mk_mem_msg(opq, addr, data)
            for kind, s in (("req", req), ("resp", resp)):
                want = want_msg(kind, mask, opq, addr, data, cl, words)
                goal(f"{kind}: fields and their order", z3.BoolVal([a for a, _ in want] == list(s.fields)))
                for n, w in want:
                    if n in s.fields:
                        goal(f"{kind}.{n}: width", expr(s.fields[n].nbits) == expr(w))
            goal("the write mask is the default", z3.BoolVal(all("wr_mask" in x.fields for x in d)))
            for q, text in C.obl:
                goal(text, q)
        except Reach as e:
            return [("message types", "unreached", str(e), time.time() - t0)]
        except (TypeError, AttributeError, KeyError, ValueError) as e:
            return [("message types", "unreached", f"{type(e).__name__}: {e}", time.time() - t0)]
        return out
    return paths(go)


def pow2_facts():
    n = z3.Int("n")
    return [z3.ForAll([n], z3.Implies(n >= 0, P2(n) > 0), patterns=[P2(n)])] + \
        [P2(i) == 2 ** i for i in range(17)]


DP, ST = "blocking_cache.CacheDerivedParams", "blocking_cache.cacheStructs"




def params_job(assoc):
    def go():
        t0 = time.time()
        b, l, d, a, o = (z3.Int(x) for x in ("log2_size", "log2_line", "log2_data", "addr", "opq"))
        la = assoc.bit_length() - 1
        # line >= data >= 32 bits, at least two sets, a tag of at least one bit
        C.pre = [d >= 5, l >= d, l <= 9, o > 0, b + 3 - l - la >= 1, a > b - la] + pow2_facts()
        S = Struct
        W = Width
        line, data, size = Sym.pow2(l), Sym.pow2(d), Sym.pow2(b)
        out = []

        def goal(n, t):
            ok, m = C.valid(t)
            out.append((n, "proved" if ok else "failed", None if ok else m, time.time() - t0))
        try:
            m = importlib.import_module(DP)
            with Swap(DP, ST):
                mk = lambda ad, da: [S(x, dict(type_=W(4), opaque=W(Sym(o)), addr=W(Sym(ad)), len=W(clog2(da // 8)),
                                               wr_mask=W(da // 32), data=W(da))) for x in ("q", "p")]
                cq, cp = mk(a, data)
                mq, mp = mk(a, line)
                p = m.CacheDerivedParams(cq, cp, mq, mp, size, assoc)
            idx, off = b + 3 - l - la, l - 3
            tag = a - idx - off
            for n, x, y in [
                    ("lines x line size = cache size", p.total_num_cachelines, Sym.pow2(b + 3 - l)),
                    ("sets x ways = lines", p.nblocks_per_way, Sym.pow2(idx)),
                    ("index width", p.bitwidth_index, Sym(idx)),
                    ("offset width", p.bitwidth_offset, Sym(off)),
                    ("tag width", p.bitwidth_tag, Sym(tag)),
                    ("line number width", p.bitwidth_num_lines, Sym(b + 3 - l)),
                    ("one dirty bit per word", p.bitwidth_dirty, Sym.pow2(l - 5)),
                    ("tag row = tag, valid and dirty bits", p.bitwidth_tag_array, Sym(tag + 1 + P2(l - 5))),
                    ("tag row write enables", p.bitwidth_tag_wben, p.bitwidth_tag_array),
                    ("line write enables", p.bitwidth_data_wben, line),
                    ("len field of the client", p.bitwidth_len, Sym(d - 3)),
                    ("len field of memory", p.bitwidth_mem_len, Sym(l - 3)),
                    ("way number width", p.bitwidth_clog_asso, 1)]:
                goal(n, expr(x) == expr(y))
            for n, s, want in [
                    ("address = tag, index, offset", p.StructAddr, [("tag", Sym(tag)), ("index", Sym(idx)), ("offset", Sym(off))]),
                    ("tag row = valid, dirty, tag", p.StructTagArray, [("val", 1), ("dty", Sym.pow2(l - 5)), ("tag", Sym(tag))]),
                    ("pipeline message", p.PipelineMsg, [("type_", 4), ("opaque", Sym(o)), ("addr", None), ("len", Sym(d - 3)),
                                                         ("data", line)]),
                    ("MSHR entry", p.MSHRMsg, [("type_", 4), ("opaque", Sym(o)), ("addr", Sym(a)), ("len", Sym(d - 3)),
                                               ("data", data), ("repl", 1), ("amo_hit", 1), ("dirty_bits", Sym.pow2(l - 5))])]:
                order = n.startswith(("address", "tag row"))        # other structures never leave the cache
                goal(f"{n}: fields", z3.BoolVal([x for x, _ in want] == list(s.fields) if order
                                                else {x for x, _ in want} <= set(s.fields)))
                for f, w in want:
                    if f in s.fields and w is not None:
                        goal(f"{n}: width of {f}", expr(s.fields[f].nbits) == expr(w))
            for q, text in C.obl:
                goal(text, q)
        except Reach as e:
            return [("derived parameters", "unreached", str(e), time.time() - t0)]
        except (TypeError, AttributeError, KeyError, ValueError) as e:
            return [("derived parameters", "unreached", f"{type(e).__name__}: {e}", time.time() - t0)]
        return out
    return paths(go)


CODES = dict(READ=0, WRITE=1, WRITE_INIT=2, AMO_ADD=3, AMO_AND=4, AMO_OR=5, AMO_SWAP=6, AMO_MIN=7, AMO_MINU=8, AMO_MAX=9,
             AMO_MAXU=10, AMO_XOR=11, LR=12, SC=13, INV=14, FLUSH=15)
SHORT = "rd wr in ad an or sw mi mu mx xu xo lr sc iv fl".split()


def codes_job():
    """the sixteen codes, all of them"""
    t = time.time()
    m = importlib.import_module(MM)
    k = importlib.import_module("constants.constants")
    out = []

    def goal(n, ok):
        out.append((n, "proved" if ok else "failed", None if ok else "differs from the documented code", time.time() - t))
    for n, v in CODES.items():
        goal(f"code of {n}", getattr(m.MemMsgType, n, None) == v)
        b = getattr(m, "MemMsgType_" + n, None)
        goal(f"constant MemMsgType_{n}", b is not None and int(b) == v and b.nbits == 4)
        c = getattr(k, "INIT" if n == "WRITE_INIT" else n, None)
        if n not in ("LR", "SC"):
            goal(f"constant {n}", c is not None and int(c) == v and c.nbits == 4)
        goal(f"trace name of {n}", m.MemMsgType.str.get(v) == SHORT[v])
    return out


# -------------------------------------------------------- on the real classes
def real_msg(opq, addr, data, mask, rnd):
    """what a message type does wrong, or None"""
    m = importlib.import_module(MM)
    req, resp = m.mk_mem_msg(opq, addr, data, has_wr_mask=mask)
    lw = max(0, (data // 8 - 1).bit_length())
    for kind, cls in (("req", req), ("resp", resp)):
        want = want_msg(kind, mask, opq, addr, data, lw, data // 32)
        got = [(n, cls.get_field_type(n).nbits) for n in cls.__bitstruct_fields__]
        if got != want:
            return f"{kind}: fields {got}, expected {want}"
        v = [rnd.getrandbits(w) for _, w in want]
        x = cls(*[getattr(importlib.import_module("pymtl3"), "mk_bits")(w)(y) for (_, w), y in zip(want, v)])
        bits = 0
        for (n, w), y in zip(want, v):
            bits = bits << w | y
            if int(getattr(x, n)) != y:
                return f"{kind}.{n} reads {int(getattr(x, n)):#x} after {y:#x}"
        if int(x.to_bits()) != bits:
            return f"{kind}: packed {int(x.to_bits()):#x}, expected {bits:#x}"
    return None


def real_params(size, line, data, addr, opq, assoc):
    m, k = importlib.import_module(MM), importlib.import_module(DP)
    cq, cp = m.mk_mem_msg(opq, addr, data, has_wr_mask=False)
    mq, mp = m.mk_mem_msg(opq, addr, line)
    p = k.CacheDerivedParams(cq, cp, mq, mp, size, assoc)
    lines = size * 8 // line
    sets = lines // assoc
    ix, of = sets.bit_length() - 1, (line // 8).bit_length() - 1
    tag = addr - ix - of
    want = dict(total_num_cachelines=lines, nblocks_per_way=sets, bitwidth_index=ix, bitwidth_offset=of, bitwidth_tag=tag,
                bitwidth_num_lines=lines.bit_length() - 1, bitwidth_dirty=line // 32, bitwidth_tag_array=tag + 1 + line // 32,
                bitwidth_tag_wben=tag + 1 + line // 32, bitwidth_data_wben=line,
                bitwidth_len=(data // 8).bit_length() - 1, bitwidth_mem_len=of, bitwidth_clog_asso=1)
    for n, w in want.items():
        if hasattr(p, n) and getattr(p, n) != w:
            return f"{n} = {getattr(p, n)}, expected {w}"
    if [(n, p.StructAddr.get_field_type(n).nbits) for n in p.StructAddr.__bitstruct_fields__] != \
            [("tag", tag), ("index", ix), ("offset", of)]:
        return "address structure"
    if [p.StructTagArray.get_field_type(n).nbits for n in p.StructTagArray.__bitstruct_fields__] != [1, line // 32, tag]:
        return "tag row structure"
    return None


def enumerate_real(seed, seconds):
    """-> (hit or None, cases)"""
    rnd = random.Random(seed)
    end, n = time.time() + seconds, 0
    for data in (32, 64, 128, 256, 512, 96, 160):
        for opq in (8, 1, 4, 12, 16):
            for addr in (32, 16, 24, 40, 64):
                for mask in (True, False):
                    n += 1
                    try:
                        r = real_msg(opq, addr, data, mask, rnd)
                    except Exception as e:      # noqa: BLE001
                        r = f"exception {type(e).__name__}: {e}"
                    if r:
                        return dict(call=f"mk_mem_msg({opq}, {addr}, {data}, has_wr_mask={mask})", violated=r), n
    cases = [(1 << b, 1 << l, 1 << d, ad, o, s) for b in range(4, 17) for l in (5, 6, 7, 8, 9) for d in (5, 6, 7) if d <= l
             for ad in (32, 64, 24, 48) for o in (8, 1) for s in (1, 2)
             if (8 << b) >> l >= 2 * s and ad > b]
    rnd.shuffle(cases)
    for c in cases:
        if time.time() > end:
            break
        n += 1
        try:
            r = real_params(*c)
        except Exception as e:      # noqa: BLE001
            r = f"exception {type(e).__name__}: {e}"
        if r:
            return dict(call="CacheDerivedParams(size={}, line={}, data={}, addr={}, opaque={}, ways={})".format(*c), violated=r), n
    return None, n


def check(rep, pid):
    thorough = rep.tier == "thorough"
    rep.trusted = ["vc/msgprops.py: symbolic integers", "z3 (linear integer arithmetic, uninterpreted 2^n and clog2)",
                   "PyMTL3 3.1.17: mk_bits, mk_bitstruct (field order is packing order, most significant first), clog2"]
    rep.assumptions = ["data and line widths of 32 to 512 bits (PyMTL3 has no Bits of 1024 or more); cache sizes, lines and data widths are powers of two; "
                       "at least two sets; a tag of at least one bit", "associativity 1 and 2"]
    rep.functions |= {f"{MM}: mk_mem_msg, mk_mem_req_msg, mk_mem_resp_msg, MemMsgType, constants",
                      "constants/constants.py: message codes", f"{DP}: CacheDerivedParams.__init__",
                      f"{ST}: mk_addr_struct, mk_tag_array_struct, mk_pipeline_msg, mk_MSHR_msg"}
    jobs = [Job(f"write mask {m}, data {'2^k' if q else 'any'}", "contract", "mk_mem_msg", [], msg_job(m, q))
            for m in (True, False) for q in (True, False)]
    jobs += [Job(f"{a} ways", "contract", "CacheDerivedParams", [], params_job(a)) for a in (1, 2)]
    jobs.append(Job("codes", "contract", "MemMsgType", [], codes_job))
    rs = run(jobs, time.time() + 200)
    un = [r for r in rs if r.status in ("unreached", "error")]
    rep.results += [r for r in rs if r not in un]
    failed = [r for r in rs if r not in un and not r.ok]
    for r in failed[:6]:
        rep.log("failed:", r.label(), r.status)
    if not failed and not un:
        return
    txt = [dict(obligation=r.label(), status=r.status, output=r.model) for r in failed[:10]]
    bad = [r for r in failed if r.cfg == "codes"]
    hit, n = (dict(call=bad[0].name, violated=bad[0].model), 0) if bad else enumerate_real(rep.seed, 600 if thorough else 60)
    if hit:
        rep.log("failing input:", hit["call"], hit["violated"])
        rep.violation(rep.replay_file("input", dict(property=pid, **hit, failed_obligations=txt)), True)
        return
    if un:
        rep.log(f"out of reach: {un[0].cfg}: {un[0].model}")
        rep.bounded.append(dict(what="the real classes on a grid of parameters", why=sorted({str(r.model) for r in un})[:3],
                                evaluations=n, distinct_nontrivial=n, samples=[f"{n} parameter sets"],
                                rule="one evaluation builds the types of one parameter set and compares fields, widths and packing"))
    if failed:
        rep.violation(rep.replay_file("obligation", dict(property=pid, failed_obligations=txt)), False)
