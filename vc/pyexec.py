"""Symbolic execution of ordinary Python methods, for contracts on the code
itself: the real function runs under CPython on proxy values (z3 terms); every
branch on a symbolic condition is explored both ways (each path re-executes the
function), and the contract's postconditions are discharged on every path.

Bits semantics are those of pymtl3.datatypes.PythonBits; crosscheck() compares
them with the real class on random operations in every run."""
import random
import time

from . import env  # noqa: F401
import z3
from pymtl3.datatypes.bits_import import Bits as RealBits

IW = 96         # signed width standing for unbounded ints (operands <= 64 bits, few additions)


class Infeasible(BaseException):
    pass


class Unsupported(Exception):
    pass


class PathLimit(BaseException):
    pass


def simp(t):
    return z3.simplify(t)


class Ctx:
    cur = None

    def __init__(self, prefix, hyps):
        self.prefix, self.made, self.pc = list(prefix), [], []
        self.s = z3.SolverFor("QF_BV")
        self.s.set("timeout", 20000)
        self.n = 0
        self.todo = []
        for h in hyps:
            self.assume(h)

    def assume(self, t):
        t = simp(t)
        self.pc.append(t)
        self.s.add(t)

    def fresh(self, name, w):
        self.n += 1
        return z3.BitVec(f"{name}!{self.n}", w) if w else z3.Bool(f"{name}!{self.n}")

    def feasible(self, t):
        r = self.s.check(t)
        if r == z3.unknown:
            raise Unsupported("path condition not decided")
        return r == z3.sat

    def fork(self, cond):
        cond = simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.made)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            yes, no = self.feasible(cond), self.feasible(z3.Not(cond))
            if not yes and not no:
                raise Infeasible()
            if yes and no:
                self.todo.append(self.made + [False])
            d = yes
        self.made.append(d)
        self.assume(cond if d else z3.Not(cond))
        return d

    def choose(self, options):
        """fork over a list of concrete options"""
        for o in options[:-1]:
            if self.fork(self.fresh("choose", 0)):
                return o
        return options[-1]


def explore(run, limit=4000, deadline=None):
    """run(ctx) executes one path and returns its value; -> [(ctx, value)]"""
    out, todo = [], [[]]
    while todo:
        if len(out) > limit or (deadline and time.time() > deadline):
            raise PathLimit()
        p = todo.pop()
        c = Ctx(p, [])
        Ctx.cur = c
        try:
            v = run(c)
            out.append((c, v))
        except Infeasible:
            pass
        finally:
            Ctx.cur = None
        todo += c.todo
    return out


def prove(ctx, goal):
    """'proved' / 'failed' + model, on this path"""
    goal = simp(goal)
    if z3.is_true(goal):
        return "proved", None
    r = ctx.s.check(z3.Not(goal))
    if r == z3.unsat:
        return "proved", None
    if r == z3.unknown:
        return "unknown", None
    m = ctx.s.model()
    return "failed", {str(d): str(m[d]) for d in m.decls()}


# --- values ---------------------------------------------------------------

class SymBool:
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return Ctx.cur.fork(self.t)

    def __eq__(self, o):
        return SymBool(self.t == boolterm(o))

    def __ne__(self, o):
        return SymBool(self.t != boolterm(o))

    def __and__(self, o):
        return SymBool(z3.And(self.t, boolterm(o)))

    def __or__(self, o):
        return SymBool(z3.Or(self.t, boolterm(o)))

    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        raise Unsupported("~ of a bool")

    def __int__(self):
        return 1 if self else 0

    __index__ = __int__

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")


def boolterm(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, SymBits):
        return x.t != 0
    return z3.BoolVal(bool(x))


def lower(t):
    """a z3 numeral as int (signed), or None"""
    t = simp(t)
    if z3.is_bv_value(t):
        return t.as_signed_long()
    return None


def no_hash(self):
    raise Unsupported("hash of a symbolic value")


class SymInt:
    """a Python int"""
    __hash__ = no_hash

    def __init__(self, t):
        self.t = t

    @staticmethod
    def mk(t):
        v = lower(t)
        return v if v is not None else SymInt(t)

    @staticmethod
    def term(x):
        if isinstance(x, SymInt):
            return x.t
        if isinstance(x, SymBits):
            return z3.ZeroExt(IW - x.nbits, x.t)
        if isinstance(x, SymBool):
            return z3.If(x.t, z3.BitVecVal(1, IW), z3.BitVecVal(0, IW))
        if isinstance(x, bool) or isinstance(x, int):
            if abs(x) >= 1 << (IW - 8):
                raise Unsupported("large int")
            return z3.BitVecVal(x, IW)
        if isinstance(x, RealBits):
            return z3.BitVecVal(int(x), IW)
        raise Unsupported(f"int operand {type(x).__name__}")

    def _b(f):
        def op(self, o):
            return SymInt.mk(f(self.t, SymInt.term(o)))
        return op

    def _r(f):
        def op(self, o):
            return SymInt.mk(f(SymInt.term(o), self.t))
        return op

    __add__ = _b(lambda a, b: a + b)
    __radd__ = _b(lambda a, b: a + b)
    __sub__ = _b(lambda a, b: a - b)
    __rsub__ = _r(lambda a, b: a - b)
    _and, _or, _xor = _b(lambda a, b: a & b), _b(lambda a, b: a | b), _b(lambda a, b: a ^ b)

    def _wide(f, narrow):
        def op(self, o):
            big = isinstance(o, WideInt) or isinstance(o, int) and abs(o) >= 1 << (IW - 8)
            return getattr(WideInt.of(self), f)(o) if big else narrow(self, o)
        return op

    __and__ = __rand__ = _wide("__and__", _and)
    __or__ = __ror__ = _wide("__or__", _or)
    __xor__ = __rxor__ = _wide("__xor__", _xor)

    def __divmod__(self, o):
        return self // o, self % o

    def __mul__(self, o):
        if isinstance(o, int) and 0 <= o < 1 << 16:
            return SymInt.mk(self.t * o)
        raise Unsupported("int product")
    __rmul__ = __mul__

    def __lshift__(self, o):
        n = int(o)
        return self * (1 << n) if n < 16 else WideInt.of(self) << n

    def __rlshift__(self, o):
        raise Unsupported("symbolic shift")

    def __rshift__(self, o):
        n = int(o)
        return SymInt.mk(self.t >> min(n, IW - 1))

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return SymInt.mk(self.t >> (o.bit_length() - 1))
        raise Unsupported("int division")

    def __mod__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return SymInt.mk(self.t & (o - 1))
        raise Unsupported("int modulo")

    def __neg__(self):
        return SymInt.mk(-self.t)

    def __eq__(self, o):
        return SymBool(self.t == SymInt.term(o))

    def __ne__(self, o):
        return SymBool(self.t != SymInt.term(o))

    def __lt__(self, o):
        return SymBool(self.t < SymInt.term(o))

    def __le__(self, o):
        return SymBool(self.t <= SymInt.term(o))

    def __gt__(self, o):
        return SymBool(self.t > SymInt.term(o))

    def __ge__(self, o):
        return SymBool(self.t >= SymInt.term(o))

    def __bool__(self):
        return Ctx.cur.fork(self.t != 0)

    def __index__(self):
        v = lower(self.t)
        if v is None:
            raise Unsupported("symbolic int used as an index of a real sequence")
        return v

    __int__ = __index__


class WideInt:
    """a non-negative Python int that may not fit SymInt; the term is as wide
    as the value needs"""
    __hash__ = no_hash

    def __init__(self, t):
        self.t = t

    @staticmethod
    def mk(t):
        t = simp(t)
        if z3.is_bv_value(t):
            return t.as_long()
        if t.size() < IW:
            return SymInt.mk(z3.ZeroExt(IW - t.size(), t))
        return WideInt(t)

    @staticmethod
    def of(x):
        if isinstance(x, WideInt):
            return x
        if isinstance(x, int):
            if x < 0:
                raise Unsupported("negative wide int")
            return WideInt(z3.BitVecVal(int(x), max(int(x).bit_length(), 1)))
        t = SymInt.term(x)
        if isinstance(x, SymInt) and Ctx.cur.fork(t < 0):
            raise Unsupported("negative wide int")
        return WideInt(t)

    def _pair(self, o, more=0):
        o = WideInt.of(o)
        n = max(self.t.size(), o.t.size()) + more
        return [z3.ZeroExt(n - x.t.size(), x.t) for x in (self, o)]

    def __and__(self, o):
        if isinstance(o, int) and o < 0:
            n = self.t.size()
            return WideInt.mk(self.t & z3.BitVecVal(o & ((1 << n) - 1), n))
        if isinstance(o, int):
            n = min(self.t.size(), max(o.bit_length(), 1))
            return WideInt.mk(z3.Extract(n - 1, 0, self.t) & z3.BitVecVal(o & ((1 << n) - 1), n))
        a, b = self._pair(o)
        return WideInt.mk(a & b)
    __rand__ = __and__

    def __or__(self, o):
        a, b = self._pair(o)
        return WideInt.mk(a | b)
    __ror__ = __or__

    def __xor__(self, o):
        a, b = self._pair(o)
        return WideInt.mk(a ^ b)
    __rxor__ = __xor__

    def __add__(self, o):
        a, b = self._pair(o, 1)
        return WideInt.mk(a + b)
    __radd__ = __add__

    def __lshift__(self, o):
        n = int(o)
        if n < 0:
            raise ValueError("negative shift count")
        return WideInt.mk(z3.Concat(self.t, z3.BitVecVal(0, n))) if n else self

    def __rshift__(self, o):
        n = int(o)
        if n < 0:
            raise ValueError("negative shift count")
        return WideInt.mk(z3.Extract(self.t.size() - 1, n, self.t)) if n < self.t.size() else 0

    def __mul__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self << (o.bit_length() - 1)
        raise Unsupported("int product")
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self >> (o.bit_length() - 1)
        raise Unsupported("int division")

    def __mod__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self & (o - 1)
        raise Unsupported("int modulo")

    def __divmod__(self, o):
        return self // o, self % o

    def _c(f):
        def op(self, o):
            return SymBool(f(*self._pair(o)))
        return op

    __eq__, __ne__ = _c(lambda a, b: a == b), _c(lambda a, b: a != b)
    __lt__, __le__ = _c(z3.ULT), _c(z3.ULE)
    __gt__, __ge__ = _c(z3.UGT), _c(z3.UGE)

    def __bool__(self):
        return Ctx.cur.fork(self.t != 0)

    def __index__(self):
        raise Unsupported("symbolic int used as an index of a real sequence")

    __int__ = __index__

    def fits(self, w):
        n = self.t.size()
        return z3.Extract(n - 1, w, self.t) == 0 if n > w else z3.BoolVal(True)

    def low(self, w):
        n = self.t.size()
        return z3.Extract(w - 1, 0, self.t) if n >= w else z3.ZeroExt(w - n, self.t)


def bits_of(x, w, what="operand"):
    """the term of x as an operand of width w, with PyMTL3's checks"""
    if isinstance(x, RealBits):
        x = SymBits(x.nbits, z3.BitVecVal(int(x), x.nbits))
    if isinstance(x, SymBits):
        if x.nbits != w:
            raise ValueError(f"{what}: Bits{x.nbits} is not Bits{w}")
        return x.t
    if isinstance(x, SymBool):
        x = SymInt.mk(SymInt.term(x))
    if isinstance(x, WideInt):
        if not Ctx.cur.fork(x.fits(w)):
            raise ValueError(f"{what}: int does not fit Bits{w}")
        return x.low(w)
    if isinstance(x, SymInt):
        if Ctx.cur.fork(z3.Or(x.t < 0, x.t >= (1 << w) if w < IW - 1 else z3.BoolVal(False))):
            raise ValueError(f"{what}: int does not fit Bits{w}")
        return z3.Extract(w - 1, 0, x.t) if w <= IW else z3.SignExt(w - IW, x.t)
    if isinstance(x, float) and not float(x).is_integer():
        raise Unsupported("float")
    v = int(x)
    if v < 0 or v >= 1 << w:
        raise ValueError(f"{what}: {v} does not fit Bits{w}")
    return z3.BitVecVal(v, w)


class SymBits:
    def __hash__(self):
        if z3.is_bv_value(self.t):
            return hash((self.nbits, self.t.as_long()))
        raise Unsupported("hash of a symbolic value")

    def __init__(self, nbits, t):
        self.nbits, self.t = nbits, simp(t)

    def clone(self):
        return SymBits(self.nbits, self.t)

    __copy__ = clone

    def __deepcopy__(self, memo):
        return self.clone()

    # arithmetic
    def _bin(f):
        def op(self, o):
            return SymBits(self.nbits, f(self.t, bits_of(o, self.nbits)))
        return op

    def _rbin(f):
        def op(self, o):
            return SymBits(self.nbits, f(bits_of(o, self.nbits), self.t))
        return op

    def _cmp(f):
        def op(self, o):
            return SymBits(1, z3.If(f(self.t, bits_of(o, self.nbits)), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
        return op

    __add__ = _bin(lambda a, b: a + b)
    __radd__ = __add__
    __sub__ = _bin(lambda a, b: a - b)
    __rsub__ = _rbin(lambda a, b: a - b)
    __mul__ = _bin(lambda a, b: a * b)
    __rmul__ = __mul__
    __and__ = _bin(lambda a, b: a & b)
    __rand__ = __and__
    __or__ = _bin(lambda a, b: a | b)
    __ror__ = __or__
    __xor__ = _bin(lambda a, b: a ^ b)
    __rxor__ = __xor__
    __lt__ = _cmp(lambda a, b: z3.ULT(a, b))
    __le__ = _cmp(lambda a, b: z3.ULE(a, b))
    __gt__ = _cmp(lambda a, b: z3.UGT(a, b))
    __ge__ = _cmp(lambda a, b: z3.UGE(a, b))

    def __eq__(self, o):
        if not isinstance(o, (SymBits, SymInt, WideInt, SymBool, RealBits)):
            try:
                o = int(o)
            except Exception:       # noqa: BLE001
                return SymBits(1, z3.BitVecVal(0, 1))
        return SymBits(1, z3.If(self.t == bits_of(o, self.nbits), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))

    def __ne__(self, o):
        e = self.__eq__(o)
        if not isinstance(o, (SymBits, SymInt, WideInt, SymBool, RealBits, int)):
            return SymBits(1, z3.BitVecVal(1, 1))
        return SymBits(1, ~e.t)

    def __invert__(self):
        return SymBits(self.nbits, ~self.t)

    def __lshift__(self, o):
        n = o if isinstance(o, int) else None
        if n is not None:
            return SymBits(self.nbits, self.t << n if n < self.nbits else z3.BitVecVal(0, self.nbits))
        if isinstance(o, SymBits) and o.nbits == self.nbits:
            return SymBits(self.nbits, self.t << o.t)
        raise Unsupported("shift")

    def __rshift__(self, o):
        n = o if isinstance(o, int) else None
        if n is not None:
            return SymBits(self.nbits, z3.LShR(self.t, n) if n < self.nbits else z3.BitVecVal(0, self.nbits))
        if isinstance(o, SymBits) and o.nbits == self.nbits:
            return SymBits(self.nbits, z3.LShR(self.t, o.t))
        raise Unsupported("shift")

    # parts
    def _range(self, idx):
        if idx.step:
            raise IndexError("step")
        lo = 0 if idx.start is None else idx.start
        hi = self.nbits if idx.stop is None else idx.stop
        lo, hi = to_int(lo), to_int(hi)
        if isinstance(lo, (SymInt, WideInt)) or isinstance(hi, (SymInt, WideInt)):
            raise Unsupported("symbolic slice bounds")
        hi = hi or self.nbits
        if not 0 <= lo < hi <= self.nbits:
            raise IndexError(f"[{lo}:{hi}] of Bits{self.nbits}")
        return lo, hi

    def __getitem__(self, idx):
        if isinstance(idx, slice):
            lo, hi = self._range(idx)
            return SymBits(hi - lo, z3.Extract(hi - 1, lo, self.t))
        i = to_int(idx)
        if isinstance(i, (SymInt, WideInt)):
            raise Unsupported("symbolic bit index")
        if not 0 <= i < self.nbits:
            raise IndexError(f"[{i}] of Bits{self.nbits}")
        return SymBits(1, z3.Extract(i, i, self.t))

    def __setitem__(self, idx, v):
        if isinstance(idx, slice):
            lo, hi = self._range(idx)
        else:
            lo = to_int(idx)
            if isinstance(lo, (SymInt, WideInt)):
                raise Unsupported("symbolic bit index")
            if not 0 <= lo < self.nbits:
                raise IndexError(f"[{lo}] of Bits{self.nbits}")
            hi = lo + 1
        if isinstance(v, (int, float)) and -(1 << (hi - lo - 1)) <= int(v) < 0:
            v = int(v) & ((1 << (hi - lo)) - 1)
        t = bits_of(v, hi - lo, "slice")
        parts = []
        if hi < self.nbits:
            parts.append(z3.Extract(self.nbits - 1, hi, self.t))
        parts.append(t)
        if lo:
            parts.append(z3.Extract(lo - 1, 0, self.t))
        self.t = simp(z3.Concat(*parts) if len(parts) > 1 else parts[0])

    def __imatmul__(self, o):
        self.t = simp(bits_of(o, self.nbits))
        return self

    # conversions
    def __bool__(self):
        return Ctx.cur.fork(self.t != 0)

    def int(self):
        if self.nbits > IW:
            raise Unsupported("wide signed int")
        return SymInt.mk(z3.SignExt(IW - self.nbits, self.t))

    def uint(self):
        return to_int(self)

    def __int__(self):
        v = to_int(self)
        if isinstance(v, (SymInt, WideInt)):
            raise Unsupported("int() of a symbolic value outside the module")
        return v

    __index__ = __int__

    def __repr__(self):
        return f"SymBits{self.nbits}({self.t})"


def to_int(x, *a):
    """the builtin int() as seen by the module under contract"""
    if isinstance(x, SymBits):
        if x.nbits >= IW:
            return WideInt.mk(x.t)
        v = simp(x.t)
        return v.as_long() if z3.is_bv_value(v) else SymInt.mk(SymInt.term(x))
    if isinstance(x, (SymInt, WideInt)):
        return x
    if isinstance(x, SymBool):
        return SymInt.mk(SymInt.term(x))
    return int(x, *a)


def mkBits(nbits, v=0, trunc_int=False):
    """Bits(nbits, v, trunc_int)"""
    nbits = int(nbits)
    if nbits < 1 or nbits >= 1024:
        raise ValueError(nbits)
    if isinstance(v, RealBits):
        v = SymBits(v.nbits, z3.BitVecVal(int(v), v.nbits))
    if isinstance(v, SymBits):
        if v.nbits != nbits:
            raise ValueError(f"Bits{v.nbits} used to construct Bits{nbits}")
        return v.clone()
    if isinstance(v, SymBool):
        v = to_int(v)
    if isinstance(v, WideInt):
        if not trunc_int and not Ctx.cur.fork(v.fits(nbits)):
            raise ValueError(f"int too wide for Bits{nbits}")
        return SymBits(nbits, v.low(nbits))
    if isinstance(v, SymInt):
        if not trunc_int and Ctx.cur.fork(z3.Or(v.t < -(1 << (nbits - 1)), v.t >= (1 << nbits))
                                          if nbits < IW - 1 else z3.BoolVal(False)):
            raise ValueError(f"int too wide for Bits{nbits}")
        return SymBits(nbits, z3.Extract(nbits - 1, 0, v.t) if nbits <= IW else z3.SignExt(nbits - IW, v.t))
    v = int(v)
    if not trunc_int and not -(1 << (nbits - 1)) <= v < 1 << nbits:
        raise ValueError(f"{v} too wide for Bits{nbits}")
    return SymBits(nbits, z3.BitVecVal(v & ((1 << nbits) - 1), nbits))


class BitsN:
    """the class returned by mk_bits(n), Bits32, ..."""

    def __init__(self, n):
        self.nbits = n

    def __call__(self, v=0, trunc_int=False, **k):
        return mkBits(self.nbits, v, trunc_int)


def width_of(x):
    n = getattr(x, "nbits", None)
    return int(x) if n is None else n


def zext(v, n):
    w = width_of(n)
    if not isinstance(v, SymBits):
        v = SymBits(v.nbits, z3.BitVecVal(int(v), v.nbits))
    if w < v.nbits:
        raise AssertionError("zext to a smaller width")
    return SymBits(w, z3.ZeroExt(w - v.nbits, v.t))


def sext(v, n):
    w = width_of(n)
    if w < v.nbits:
        raise AssertionError("sext to a smaller width")
    return SymBits(w, z3.SignExt(w - v.nbits, v.t))


def trunc(v, n):
    w = width_of(n)
    if w > v.nbits:
        raise AssertionError("trunc to a larger width")
    return SymBits(w, z3.Extract(w - 1, 0, v.t))


def concat(*xs):
    n = sum(x.nbits for x in xs)
    return SymBits(n, z3.Concat(*[x.t for x in xs]) if len(xs) > 1 else xs[0].t)


class MetaBits(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SymBits)


class BitsFactory(metaclass=MetaBits):
    def __new__(cls, nbits, v=0, trunc_int=False):
        return mkBits(nbits, v, trunc_int)


def install(mod):
    """replace the Bits vocabulary in a privately imported module"""
    mod.Bits, mod.mk_bits, mod.int = BitsFactory, BitsN, to_int
    mod.zext, mod.sext, mod.trunc, mod.concat = zext, sext, trunc, concat
    for k in list(vars(mod)):
        if k.startswith("Bits") and k[4:].isdigit():
            setattr(mod, k, BitsN(int(k[4:])))
        if k.startswith("b") and k[1:].isdigit():
            setattr(mod, k, BitsN(int(k[1:])))


def crosscheck(seed, n=3000):
    """proxy Bits agree with pymtl3's Bits on random concrete operations"""
    import operator as op
    import pymtl3
    r = random.Random(seed)
    Ctx.cur = Ctx([], [])

    def norm(f):
        try:
            x = f()
        except Unsupported:
            raise
        except Exception as e:      # noqa: BLE001
            return type(e) if not isinstance(e, (AssertionError, TypeError)) else AssertionError
        if isinstance(x, SymBits):
            return x.nbits, simp(x.t).as_long()
        if isinstance(x, RealBits):
            return x.nbits, int(x)
        if isinstance(x, (SymInt, WideInt, SymBool)):
            raise AssertionError("not concrete")
        return x
    val = lambda w: r.choice([0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, r.getrandbits(w)])
    bad = []
    for _ in range(n):
        w = r.choice([1, 2, 8, 28, 32, 64])
        w2 = w if r.random() < .8 else r.choice([1, 2, 8, 32])
        a, b = val(w), val(w2)
        A, B = RealBits(w, a), RealBits(w2, b)
        SA, SB = mkBits(w, a), mkBits(w2, b)
        if r.random() < .3:
            B = SB = r.choice([b, -1, 0, 1, 1 << w, 3])
        o = r.choice(["add", "sub", "and_", "or_", "xor", "lt", "le", "gt", "ge", "eq", "ne"])
        f = getattr(op, o)
        tests = [(o, lambda: f(A, B), lambda: f(SA, SB)), ("inv", lambda: ~A, lambda: ~SA),
                 ("bool", lambda: bool(A), lambda: bool(SA)), ("int", lambda: int(A), lambda: to_int(SA)),
                 ("sint", lambda: A.int(), lambda: SA.int()),
                 ("mk", lambda: RealBits(w, B), lambda: mkBits(w, SB)),
                 ("mkt", lambda: RealBits(w, B, trunc_int=True), lambda: mkBits(w, SB, True))]
        lo, hi = r.randint(0, w), r.randint(0, w)
        tests.append(("slice", lambda: A[lo:hi], lambda: SA[lo:hi]))

        def st(x, y):
            z = x.clone()
            z[lo:hi] = y
            return z
        tests.append(("setslice", lambda: st(A, B), lambda: st(SA, SB)))
        k = r.choice([1, 8, 32, 64, 128])
        tests += [("zext", lambda: pymtl3.zext(A, k), lambda: zext(SA, k)),
                  ("trunc", lambda: pymtl3.trunc(A, k), lambda: trunc(SA, k)),
                  ("sext", lambda: pymtl3.sext(A, k), lambda: sext(SA, k))]
        for nm, x, y in tests:
            u, v = norm(x), norm(y)
            if u != v and not (isinstance(u, type) and isinstance(v, type)):
                bad.append((nm, w, a, str(B), lo, hi, k, u, v))
    Ctx.cur = None
    return n * 12, bad
