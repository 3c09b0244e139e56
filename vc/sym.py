"""Symbolic execution of PyMTL update blocks (the verification-condition
generator).

The input is the abstract syntax tree of the update block that PyMTL itself
registered while elaborating the real component from /repo, together with the
block's own function object (closure and globals).  Every statement is executed
with the semantics of PyMTL's Bits (widths, wrap-around, exceptions); a branch
on a symbolic condition executes both sides and merges.  Anything that would
raise an exception in PyMTL becomes an obligation `guard => ok`.
Loops over concrete ranges are unrolled completely; nothing is bounded."""

import ast
import builtins
import inspect
import textwrap
import types

from . import env  # noqa: F401
from . import term as tm

import pymtl3
from pymtl3.datatypes import Bits, is_bitstruct_class, is_bitstruct_inst, mk_bits
from pymtl3.datatypes import helpers as H
from pymtl3.dsl import Signal
from pymtl3.dsl.NamedObject import NamedObject

FIELDS = "__bitstruct_fields__"


class Unsupported(Exception):
    """A construct outside the extractor's subset of Python/PyMTL."""


class StaticRaise(Exception):
    """Executing this statement raises for every input reaching it."""


def fields_of(cls):
    return getattr(cls, FIELDS)


# ------------------------------------------------------------------- values

class SB:
    """A value of type Bits<w>."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def nbits(self):
        return self.t.w

    def __repr__(self):
        return f"SB({self.t})"


class PB:
    """A symbolic Python bool."""
    __slots__ = ("t",)

    def __init__(self, t):
        assert t.w == 1
        self.t = t


class SS:
    """A bitstruct value: field name -> SB | SS | list."""
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f


class Choice:
    """One of several values, under pairwise disjoint, exhaustive conditions."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts


class Conflict:
    def __init__(self, why):
        self.why = why


class Ref:
    """Assignable place: bits [lo, lo+w) of a leaf, or a whole struct signal."""
    __slots__ = ("sig", "path", "type", "lo", "w")

    def __init__(self, sig, path, type_, lo=0, w=None):
        self.sig, self.path, self.type, self.lo = sig, path, type_, lo
        self.w = type_.nbits if w is None and type_ is not None else w

    def is_struct(self):
        return self.type is not None and is_bitstruct_class(self.type)

    def __repr__(self):
        return f"{leafname(self.sig, self.path)}[{self.lo}:{self.lo + (self.w or 0)}]"


class DynBit:
    """Bit of a Ref at a symbolic index."""
    __slots__ = ("ref", "idx")

    def __init__(self, ref, idx):
        self.ref, self.idx = ref, idx


class ArrRef:
    """Element of a large signal list at a symbolic or concrete index; only
    the element at the design's watched index is tracked exactly."""
    __slots__ = ("arr", "idx", "lo", "w")

    def __init__(self, arr, idx, lo=0, w=None):
        self.arr, self.idx, self.lo, self.w = arr, idx, lo, w


class ArrDynBit:
    __slots__ = ("ref", "idx")

    def __init__(self, ref, idx):
        self.ref, self.idx = ref, idx


class Arr:
    """A list of identically typed signals seen through one watched element."""

    def __init__(self, name, sigs, watch):
        self.name, self.sigs, self.watch = name, sigs, watch
        self.type = sigs[0]._dsl.Type


def leafname(sig, path):
    return ".".join([repr(sig)] + [str(x) for x in path])


def type_leaves(T, path=()):
    """Leaves of a type, most significant first: (path, width)."""
    if isinstance(T, list):
        for i in reversed(range(len(T))):
            yield from type_leaves(T[i], path + (i,))
    elif is_bitstruct_class(T):
        for n, ft in fields_of(T).items():
            yield from type_leaves(ft, path + (n,))
    else:
        yield path, T.nbits


def from_concrete(v):
    """Turn concrete Bits / bitstruct objects into symbolic-value form."""
    if isinstance(v, Bits):
        return SB(tm.const(int(v), v.nbits))
    if is_bitstruct_inst(v):
        f = {}
        for n in fields_of(type(v)):
            f[n] = from_concrete(getattr(v, n))
        return SS(type(v), f)
    if isinstance(v, list) and v and (isinstance(v[0], Bits) or is_bitstruct_inst(v[0])):
        return [from_concrete(x) for x in v]
    return v


def to_bits(v):
    """Term with the bits of a Bits/bitstruct value."""
    if isinstance(v, SB):
        return v.t
    if isinstance(v, SS):
        return tm.concat(*[to_bits(x) for x in v.f.values()])
    if isinstance(v, list):
        return tm.concat(*[to_bits(x) for x in reversed(v)])
    raise Unsupported(f"to_bits of {type(v).__name__}")


def from_bits(T, t):
    if isinstance(T, list):
        out, lo = [], 0
        for ft in T:
            w = _width(ft)
            out.append(from_bits(ft, tm.extract(t, lo, lo + w)))
            lo += w
        return out
    if is_bitstruct_class(T):
        f, hi = {}, t.w
        for n, ft in fields_of(T).items():
            w = _width(ft)
            f[n] = from_bits(ft, tm.extract(t, hi - w, hi))
            hi -= w
        return SS(T, f)
    return SB(t)


def _width(T):
    if isinstance(T, list):
        return sum(_width(x) for x in T)
    return T.nbits


def merge_val(c, a, b):
    """Value of `a if c else b`."""
    if a is b:
        return a
    if isinstance(a, SB) and isinstance(b, SB) and a.t.w == b.t.w:
        return SB(tm.ite(c, a.t, b.t))
    if isinstance(a, SS) and isinstance(b, SS) and a.cls is b.cls:
        return SS(a.cls, {n: merge_val(c, a.f[n], b.f[n]) for n in a.f})
    if isinstance(a, PB) and isinstance(b, PB):
        return PB(tm.ite(c, a.t, b.t))
    if isinstance(a, bool) and isinstance(b, PB):
        return PB(tm.ite(c, tm.bool_(a), b.t))
    if isinstance(b, bool) and isinstance(a, PB):
        return PB(tm.ite(c, a.t, tm.bool_(b)))
    if type(a) is type(b) and isinstance(a, (int, str, bool, type(None))) and a == b:
        return a
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [merge_val(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, Conflict) or isinstance(b, Conflict):
        return Conflict("merged")
    aa = [(tm.and_(c, g), v) for g, v in a.alts] if isinstance(a, Choice) else [(c, a)]
    bb = ([(tm.and_(tm.not_(c), g), v) for g, v in b.alts] if isinstance(b, Choice)
          else [(tm.not_(c), b)])
    return mk_choice(aa + bb)


def mk_choice(alts):
    out = []
    for g, v in alts:
        if g is tm.FALSE:
            continue
        for k, (g2, v2) in enumerate(out):
            if same(v, v2):
                out[k] = (tm.or_(g2, g), v2)
                break
        else:
            out.append((g, v))
    if len(out) == 1:
        return out[0][1]
    if out and all(isinstance(v, SB) and v.t.w == out[0][1].t.w for _, v in out
                   if isinstance(out[0][1], SB)) and all(isinstance(v, SB) for _, v in out):
        r = out[-1][1].t
        for g, v in reversed(out[:-1]):
            r = tm.ite(g, v.t, r)
        return SB(r)
    if out and all(isinstance(v, (PB, bool)) for _, v in out):
        r = tm.FALSE
        for g, v in out:
            r = tm.or_(r, tm.and_(g, v.t if isinstance(v, PB) else tm.bool_(v)))
        return PB(r)
    return Choice(out)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, SB) and isinstance(b, SB):
        return a.t is b.t
    if isinstance(a, Ref) and isinstance(b, Ref):
        return (a.sig is b.sig and a.path == b.path and a.lo == b.lo and a.w == b.w)
    if type(a) is type(b) and isinstance(a, (int, str, bool)):
        return a == b
    return False


def choice_map(f, *args):
    """Apply f to plain values, distributing over Choice arguments."""
    for k, a in enumerate(args):
        if isinstance(a, Choice):
            out = []
            for g, v in a.alts:
                rest = list(args)
                rest[k] = v
                r = choice_map(f, *rest)
                if isinstance(r, Choice):
                    out.extend((tm.and_(g, g2), v2) for g2, v2 in r.alts)
                else:
                    out.append((g, r))
            return mk_choice(out)
    return f(*args)


# ------------------------------------------------------------------- state

class State:
    """Local variables and the signals assigned so far by this block."""
    __slots__ = ("loc", "cur", "nxt", "wmask", "arr", "arrn")

    def __init__(self):
        self.loc, self.cur, self.nxt, self.wmask = {}, {}, {}, {}
        self.arr, self.arrn = {}, {}

    def copy(self):
        s = State()
        s.loc = dict(self.loc)
        s.cur = dict(self.cur)
        s.nxt = dict(self.nxt)
        s.wmask = self.wmask  # shared: static union over all paths
        s.arr = dict(self.arr)
        s.arrn = dict(self.arrn)
        return s


class Frame:
    def __init__(self, fn, self_locals=None):
        self.globals = fn.__globals__
        self.closure = {}
        if fn.__closure__:
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    self.closure[n] = c.cell_contents
                except ValueError:
                    pass


NORMAL, RETURN, BREAK, CONTINUE = "normal", "return", "break", "continue"


class Interp:
    """Executes one update block."""

    def __init__(self, design, blk, tree, is_ff):
        self.d, self.blk, self.tree, self.is_ff = design, blk, tree, is_ff
        self.obls = []          # (guard, ok, text)
        self.reads = set()
        self.fresh = 0
        self.depth = 0
        self.line = 0
        self.file = ""

    # ---- obligations
    def where(self):
        return f"{self.blk.__name__}:{self.line}"

    def oblige(self, g, ok, what):
        ok = tm.implies(g, ok)
        if ok is not tm.TRUE:
            self.obls.append((ok, f"{what} [{self.where()}]"))

    # ---- signal access
    def placeholder(self, sig, path, w):
        self.reads.add((sig, path))
        return self.d.placeholder(sig, path, w)

    def leaf_get(self, st, sig, path, w):
        k = (sig, path)
        if k in st.cur:
            return st.cur[k]
        return self.placeholder(sig, path, w)

    def read_ref(self, st, r):
        if isinstance(r, Choice):
            return choice_map(lambda x: self.read_ref(st, x), r)
        if isinstance(r, DynBit):
            base = self.read_ref(st, r.ref)
            return SB(dyn_get(base.t, r.idx))
        if isinstance(r, ArrDynBit):
            base = self.read_ref(st, r.ref)
            return SB(dyn_get(base.t, r.idx))
        if isinstance(r, ArrRef):
            return SB(tm.extract(self.arr_read(st, r), r.lo, r.lo + r.w))
        if r.is_struct():
            return self.read_struct(st, r.sig, r.path, r.type)
        w = self.d.leaf_width(r.sig, r.path)
        return SB(tm.extract(self.leaf_get(st, r.sig, r.path, w), r.lo, r.lo + r.w))

    def read_struct(self, st, sig, path, T):
        if isinstance(T, list):
            return [self.read_struct(st, sig, path + (i,), x) for i, x in enumerate(T)]
        if is_bitstruct_class(T):
            return SS(T, {n: self.read_struct(st, sig, path + (n,), ft)
                          for n, ft in fields_of(T).items()})
        return SB(self.leaf_get(st, sig, path, T.nbits))

    def arr_read(self, st, r):
        a = r.arr
        t = r.idx
        cur = st.arr.get(a.name)
        if cur is None:
            cur = self.d.arr_placeholder(a)
            self.reads.add(("arr", a.name))
        other = self.d.arr_other(a, t)
        return tm.ite(tm.eq(t, tm.zext(a.watch, t.w) if a.watch.w < t.w else a.watch), cur, other)

    def write_leaf(self, st, g, sig, path, lo, w, t, ff):
        k = (sig, path)
        W = self.d.leaf_width(sig, path)
        st.wmask[k] = st.wmask.get(k, 0) | (((1 << w) - 1) << lo)
        if ff:
            cur = st.nxt.get(k)
            if cur is None:
                cur = self.leaf_get(st, sig, path, W)
            st.nxt[k] = tm.update(cur, lo, lo + w, t)
        else:
            cur = st.cur.get(k)
            if cur is None:
                cur = t if (lo == 0 and w == W) else self.d.placeholder(sig, path, W)
            st.cur[k] = tm.update(cur, lo, lo + w, t)

    # value conversions for assignment to w bits -----------------------------
    def fit(self, g, v, w, what, bit_index=False):
        """Term of exactly w bits for `lhs @= v`; obligations as PyMTL."""
        if isinstance(v, Choice):
            r = None
            for gg, x in v.alts:
                f = self.fit(tm.and_(g, gg), x, w, what, bit_index)
                r = f if r is None else tm.ite(gg, f, r)
            return r
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, PB):
            return tm.zext(v.t, w)
        if isinstance(v, int):
            if bit_index:
                if abs(v) > 1:
                    self.oblige(g, tm.FALSE, f"ValueError: {v} into a bit")
            elif not (-(1 << (w - 1)) <= v < (1 << w)):
                self.oblige(g, tm.FALSE, f"ValueError: {v} does not fit Bits{w}")
            return tm.const(v, w)
        if isinstance(v, (SB, SS)):
            t = to_bits(v)
            if t.w != w:
                self.oblige(g, tm.FALSE, f"ValueError: Bits{t.w} assigned to Bits{w}")
                t = tm.trunc(t, w) if t.w > w else tm.zext(t, w)
            return t
        raise Unsupported(f"assigned value of type {type(v).__name__}")

    def assign(self, st, g, ref, v, ff):
        if isinstance(ref, Choice):
            for gg, r in ref.alts:
                # guarded write: keep the old value where gg is false
                s2 = st.copy()
                self.assign(s2, tm.and_(g, gg), r, v, ff)
                self.merge_into(st, gg, s2)
            return
        if isinstance(ref, DynBit):
            base = ref.ref
            w = base.w
            t = self.fit(g, v, 1, "bit", bit_index=True)
            W = self.d.leaf_width(base.sig, base.path)
            if ff:
                raise Unsupported("<<= to an indexed bit")
            cur = tm.extract(self.leaf_get(st, base.sig, base.path, W), base.lo, base.lo + w)
            self.write_leaf(st, g, base.sig, base.path, base.lo, w, dyn_set(cur, ref.idx, t), ff)
            return
        if isinstance(ref, (ArrRef, ArrDynBit)):
            a = ref.arr if isinstance(ref, ArrRef) else ref.ref.arr
            base = ref if isinstance(ref, ArrRef) else ref.ref
            store = st.arrn if ff else st.arr
            cur = store.get(a.name)
            if cur is None:
                cur = st.arr.get(a.name) if ff else None
                if cur is None:
                    cur = self.d.arr_placeholder(a)
            hit = tm.eq(base.idx, tm.zext(a.watch, base.idx.w) if a.watch.w < base.idx.w else a.watch)
            if isinstance(ref, ArrRef):
                t = self.fit(g, v, base.w, "row")
                new = tm.update(cur, base.lo, base.lo + base.w, t)
            else:
                t = self.fit(g, v, 1, "bit", bit_index=True)
                new = dyn_set(cur, ref.idx, t)
            store[a.name] = tm.ite(hit, new, cur)
            st.wmask[("arr", a.name)] = ff
            return
        if not isinstance(ref, Ref):
            raise Unsupported(f"assignment to {type(ref).__name__}")
        if ref.is_struct():
            t = self.fit(g, v, ref.type.nbits, "struct")
            hi = t.w
            for path, w in type_leaves(ref.type):
                self.write_leaf(st, g, ref.sig, ref.path + path, 0, w,
                                tm.extract(t, hi - w, hi), ff)
                hi -= w
            return
        single = getattr(ref, "w") == 1 and ref.lo is not None and ref.type is None
        t = self.fit(g, v, ref.w, "signal", bit_index=single)
        self.write_leaf(st, g, ref.sig, ref.path, ref.lo, ref.w, t, ff)

    def merge_into(self, st, c, s2):
        """st := (s2 if c else st)"""
        for k, v in s2.cur.items():
            o = st.cur.get(k)
            if o is not v:
                if o is None:
                    o = self.d.placeholder(k[0], k[1], v.w)
                st.cur[k] = tm.ite(c, v, o)
        for k, v in s2.nxt.items():
            o = st.nxt.get(k)
            if o is not v:
                if o is None:
                    o = self.leaf_get(st, k[0], k[1], v.w)
                st.nxt[k] = tm.ite(c, v, o)
        for n, v in s2.arr.items():
            o = st.arr.get(n)
            if o is not v:
                if o is None:
                    o = self.d.arr_placeholder(self.d.arrays[n])
                st.arr[n] = tm.ite(c, v, o)
        for n, v in s2.arrn.items():
            o = st.arrn.get(n)
            if o is not v:
                if o is None:
                    o = st.arr.get(n)
                    if o is None:
                        o = self.d.arr_placeholder(self.d.arrays[n])
                st.arrn[n] = tm.ite(c, v, o)
        for k in list(st.loc):
            if k in s2.loc and s2.loc[k] is not st.loc[k]:
                st.loc[k] = merge_val(c, s2.loc[k], st.loc[k])
        for k in s2.loc:
            if k not in st.loc:
                st.loc[k] = Conflict(f"{k} assigned on one branch only")

    # ---- statements: result is a dict  outcome -> (cond, state, value)
    def run(self):
        st = State()
        fn = self.tree
        self.fr = Frame(self.blk)
        self.exec_body(fn.body, st, tm.TRUE)
        # merged outcome handled in exec_body via return value
        return self.final

    def execute(self):
        st = State()
        self.fr = Frame(self.blk)
        outs = self.exec_body(self.tree.body, st, tm.TRUE)
        items = [outs[k] for k in (NORMAL, RETURN) if k in outs]
        if any(k in outs for k in (BREAK, CONTINUE)):
            raise Unsupported("break outside loop")
        s = items[0][1]
        if len(items) == 2:
            s2 = items[1][1].copy()
            self.merge_into(s2, items[0][0], s)
            s = s2
        return s

    def join(self, a, b):
        """Merge two (cond, state, value) with disjoint conditions."""
        if a is None:
            return b
        if b is None:
            return a
        c1, s1, v1 = a
        c2, s2, v2 = b
        s = s2.copy()
        self.merge_into(s, c1, s1)
        for k in s2.loc:
            if k not in s1.loc:
                s.loc[k] = Conflict(f"{k} assigned on one branch only")
        v = v2 if v1 is None and v2 is None else merge_val(c1, v1, v2)
        return tm.or_(c1, c2), s, v

    def exec_body(self, stmts, st, g):
        """Conditions in the result are relative to g."""
        outs = {}
        cond = tm.TRUE
        for s in stmts:
            if cond is tm.FALSE:
                break
            r = self.exec_stmt(s, st, tm.and_(g, cond))
            if r is None:
                continue
            for k, (c, s2, v) in r.items():
                if k != NORMAL:
                    outs[k] = self.join(outs.get(k), (tm.and_(cond, c), s2, v))
            if NORMAL not in r:
                return outs
            c, st, _ = r[NORMAL]
            cond = tm.and_(cond, c)
        outs[NORMAL] = self.join(outs.get(NORMAL), (cond, st, None))
        return outs

    def exec_stmt(self, s, st, g):
        self.line = getattr(s, "lineno", self.line)
        if isinstance(s, ast.AugAssign):
            if isinstance(s.op, (ast.MatMult, ast.LShift)) :
                v = self.ev(s.value, st, g)
                ref = self.lval(s.target, st, g)
                if isinstance(ref, _LocalName):
                    cur = self.ev_name(ref.n, st)
                    if isinstance(s.op, ast.MatMult):
                        # blocking assignment to a temporary Bits object
                        if isinstance(cur, SB):
                            st.loc[ref.n] = SB(self.fit(g, v, cur.t.w, "temporary"))
                            return None
                        raise Unsupported("@= to a non-signal")
                    st.loc[ref.n] = self.binop(ast.LShift(), cur, v, g)
                    return None
                self.assign(st, g, ref, v, isinstance(s.op, ast.LShift))
                return None
            ref = self.lval(s.target, st, g)
            if isinstance(ref, _LocalName):
                v = self.ev(s.value, st, g)
                st.loc[ref.n] = self.binop(s.op, self.ev_name(ref.n, st), v, g)
                return None
            raise Unsupported("augmented assignment to a signal")
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, st, g, want_ref=True)
            if not (isinstance(v, Ref) and self.whole(v)):
                v = self.rval(st, v)
            for t in s.targets:
                self.bind(t, v, st, g)
            return None
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            self.bind(s.target, self.ev(s.value, st, g), st, g)
            return None
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return None
            self.ev(s.value, st, g)
            return None
        if isinstance(s, ast.Pass):
            return None
        if isinstance(s, ast.If):
            c = self.truth(self.ev(s.test, st, g), g)
            if c is tm.TRUE:
                return self.exec_body(s.body, st, g)
            if c is tm.FALSE:
                return self.exec_body(s.orelse, st, g)
            o1 = self.exec_body(s.body, st.copy(), tm.and_(g, c))
            o2 = self.exec_body(s.orelse, st.copy(), tm.and_(g, tm.not_(c)))
            outs = {}
            for k in list(o1) + list(o2):
                if k in outs:
                    continue
                a = o1.get(k)
                b = o2.get(k)
                if a:
                    a = (tm.and_(c, a[0]), a[1], a[2])
                if b:
                    b = (tm.and_(tm.not_(c), b[0]), b[1], b[2])
                outs[k] = self.join(a, b)
            return outs
        if isinstance(s, ast.For):
            it = self.ev(s.iter, st, g)
            it = self.iterate(it)
            outs = {}
            cond = tm.TRUE
            for x in it:
                self.bind(s.target, x, st, tm.and_(g, cond))
                r = self.exec_body(s.body, st, tm.and_(g, cond))
                nxt = None
                for k, (c, s2, v) in r.items():
                    c = tm.and_(cond, c)
                    if k in (NORMAL, CONTINUE):
                        nxt = self.join(nxt, (c, s2, None))
                    elif k == BREAK:
                        outs[NORMAL] = self.join(outs.get(NORMAL), (c, s2, None))
                    else:
                        outs[k] = self.join(outs.get(k), (c, s2, v))
                if nxt is None:
                    return outs
                cond, st, _ = nxt
                if cond is tm.FALSE:
                    return outs
            if s.orelse:
                raise Unsupported("for-else")
            outs[NORMAL] = self.join(outs.get(NORMAL), (cond, st, None))
            return outs
        if isinstance(s, ast.While):
            outs = {}
            cond = tm.TRUE
            for _ in range(5000):
                c = self.truth(self.ev(s.test, st, tm.and_(g, cond)), g)
                if c is tm.FALSE:
                    break
                if c is not tm.TRUE:
                    raise Unsupported("while with a symbolic condition")
                r = self.exec_body(s.body, st, tm.and_(g, cond))
                nxt = None
                for k, (c, s2, v) in r.items():
                    c = tm.and_(cond, c)
                    if k in (NORMAL, CONTINUE):
                        nxt = self.join(nxt, (c, s2, None))
                    elif k == BREAK:
                        outs[NORMAL] = self.join(outs.get(NORMAL), (c, s2, None))
                    else:
                        outs[k] = self.join(outs.get(k), (c, s2, v))
                if nxt is None:
                    return outs
                cond, st, _ = nxt
            else:
                raise Unsupported("while does not terminate")
            outs[NORMAL] = self.join(outs.get(NORMAL), (cond, st, None))
            return outs
        if isinstance(s, ast.Return):
            v = self.ev(s.value, st, g) if s.value is not None else None
            return {RETURN: (tm.TRUE, st, v)}
        if isinstance(s, ast.Break):
            return {BREAK: (tm.TRUE, st, None)}
        if isinstance(s, ast.Continue):
            return {CONTINUE: (tm.TRUE, st, None)}
        if isinstance(s, ast.Assert):
            c = self.truth(self.ev(s.test, st, g), g)
            self.oblige(g, c, "AssertionError")
            return None
        if isinstance(s, ast.FunctionDef):
            st.loc[s.name] = _LocalFn(s, dict(st.loc))
            return None
        raise Unsupported(f"statement {type(s).__name__} at line {self.line}")

    def whole(self, r):
        # `x = s.sig` aliases the signal object; a slice makes a copy
        return r.is_struct() or (r.type is not None and r.lo == 0 and
                                 r.w == self.d.leaf_width(r.sig, r.path))

    def bind(self, target, v, st, g):
        v = self.wrap(v)
        if isinstance(target, ast.Name):
            st.loc[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            vs = self.iterate(v)
            if len(vs) != len(target.elts):
                raise Unsupported("unpacking")
            for t, x in zip(target.elts, vs):
                self.bind(t, x, st, g)
        else:
            raise Unsupported("= assignment to a signal")

    def iterate(self, it):
        if isinstance(it, (SB, SS, Choice, PB, Conflict)):
            raise Unsupported("iteration over a symbolic value")
        return list(it)

    # ---- expressions
    def truth(self, v, g):
        if isinstance(v, Choice):
            r = tm.FALSE
            for gg, x in v.alts:
                r = tm.or_(r, tm.and_(gg, self.truth(x, g)))
            return r
        if isinstance(v, SB):
            return tm.nonzero(v.t)
        if isinstance(v, PB):
            return v.t
        if isinstance(v, (SS, Conflict)):
            raise Unsupported("truth value of a struct")
        return tm.bool_(bool(v))

    def ev_name(self, n, st):
        if n in st.loc:
            v = st.loc[n]
            if isinstance(v, Conflict):
                raise Unsupported(f"{n}: {v.why}")
            return v
        if n in self.fr.closure:
            return self.wrap(self.fr.closure[n])
        if n in self.fr.globals:
            return self.wrap(self.fr.globals[n])
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise Unsupported(f"name {n}")

    def wrap(self, v):
        if isinstance(v, Signal):
            return self.d.sigref(v)
        if isinstance(v, list) and v and isinstance(v[0], Signal):
            a = self.d.array_of(v)
            if a is not None:
                return a
            return v
        return from_concrete(v)

    def rval(self, st, v):
        if isinstance(v, (Ref, DynBit, ArrRef, ArrDynBit)):
            return self.read_ref(st, v)
        if isinstance(v, Choice) and any(isinstance(x, (Ref, DynBit, ArrRef, ArrDynBit))
                                         for _, x in v.alts):
            return choice_map(lambda x: self.rval(st, x), v)
        return v

    def lval(self, e, st, g):
        if isinstance(e, ast.Name):
            v = st.loc.get(e.id)
            if v is None:
                v = self.wrap(self.fr.closure.get(e.id, self.fr.globals.get(e.id)))
            if isinstance(v, (Ref, DynBit, Choice)) and not isinstance(v, SB):
                return v
            return _LocalName(e.id)
        v = self.ev(e, st, g, want_ref=True)
        return v

    def ev(self, e, st, g, want_ref=False):
        v = self._ev(e, st, g)
        return v if want_ref else self.rval(st, v)

    def _ev(self, e, st, g):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            return self.ev_name(e.id, st)
        if isinstance(e, ast.Attribute):
            o = self._ev(e.value, st, g)
            return choice_map(lambda x: self.attr(x, e.attr), o)
        if isinstance(e, ast.Subscript):
            o = self._ev(e.value, st, g)
            if isinstance(e.slice, ast.Slice):
                lo = self.ev(e.slice.lower, st, g) if e.slice.lower else None
                hi = self.ev(e.slice.upper, st, g) if e.slice.upper else None
                if e.slice.step is not None:
                    raise Unsupported("slice step")
                return choice_map(lambda x, l, h: self.slice_(x, l, h, g, st), o, lo, hi)
            i = self.ev(e.slice, st, g)
            if isinstance(i, slice):
                return choice_map(lambda x: self.slice_(x, from_concrete(i.start),
                                                        from_concrete(i.stop), g, st), o)
            return self.index_all(o, i, g, st)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, st, g), self.ev(e.right, st, g)
            return self.binop(e.op, a, b, g)
        if isinstance(e, ast.UnaryOp):
            a = self.ev(e.operand, st, g)
            return choice_map(lambda x: self.unop(e.op, x, g), a)
        if isinstance(e, ast.Compare):
            l = self.ev(e.left, st, g)
            res = None
            for op, r in zip(e.ops, e.comparators):
                r = self.ev(r, st, g)
                c = choice_map(lambda x, y: self.compare(op, x, y, g), l, r)
                if res is None:
                    res = c
                else:
                    res = PB(tm.and_(self.truth(res, g), self.truth(c, g)))
                l = r
            return res
        if isinstance(e, ast.BoolOp):
            # Python semantics: value of the deciding operand
            v = self.ev(e.values[0], st, g)
            gg = g
            for nx in e.values[1:]:
                c = self.truth(v, gg)
                if isinstance(e.op, ast.And):
                    if c is tm.FALSE:
                        return v
                    gg = tm.and_(gg, c)
                    w = self.ev(nx, st, gg)
                    v = w if c is tm.TRUE else self._pick(c, w, v)
                else:
                    if c is tm.TRUE:
                        return v
                    gg = tm.and_(gg, tm.not_(c))
                    w = self.ev(nx, st, gg)
                    v = w if c is tm.FALSE else self._pick(c, v, w)
            return v
        if isinstance(e, ast.IfExp):
            c = self.truth(self.ev(e.test, st, g), g)
            if c is tm.TRUE:
                return self.ev(e.body, st, g)
            if c is tm.FALSE:
                return self.ev(e.orelse, st, g)
            a = self.ev(e.body, st, tm.and_(g, c))
            b = self.ev(e.orelse, st, tm.and_(g, tm.not_(c)))
            return merge_val(c, a, b)
        if isinstance(e, ast.Call):
            return self.call(e, st, g)
        if isinstance(e, (ast.Tuple, ast.List)):
            vs = [self.ev(x, st, g) for x in e.elts]
            return tuple(vs) if isinstance(e, ast.Tuple) else vs
        if isinstance(e, ast.Dict):
            return {self.ev(k, st, g): self.ev(v, st, g) for k, v in zip(e.keys, e.values)}
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            out = []
            saved = dict(st.loc)

            def rec(k):
                if k == len(e.generators):
                    out.append(self.ev(e.elt, st, g))
                    return
                gen = e.generators[k]
                for x in self.iterate(self.ev(gen.iter, st, g)):
                    self.bind(gen.target, x, st, g)
                    ok = True
                    for c in gen.ifs:
                        t = self.truth(self.ev(c, st, g), g)
                        if t is tm.FALSE:
                            ok = False
                        elif t is not tm.TRUE:
                            raise Unsupported("symbolic comprehension filter")
                    if ok:
                        rec(k + 1)
            rec(0)
            st.loc.clear()
            st.loc.update(saved)
            return out
        if isinstance(e, ast.Lambda):
            return _LocalFn(e, dict(st.loc))
        if isinstance(e, ast.JoinedStr):
            return "<f-string>"
        raise Unsupported(f"expression {type(e).__name__} at line {self.line}")

    def _pick(self, c, a, b):
        if isinstance(a, SB) and isinstance(b, SB) and a.t.w == b.t.w:
            return SB(tm.ite(c, a.t, b.t))
        return PB(tm.ite(c, self.truth(a, c), self.truth(b, c)))

    # attribute / index
    def attr(self, o, name):
        if isinstance(o, Ref):
            if o.is_struct():
                fs = fields_of(o.type)
                if name in fs:
                    return self.d.fieldref(o.sig, o.path + (name,), fs[name])
                if name == "nbits":
                    return o.type.nbits
                if name in ("to_bits", "clone"):
                    return _Bound(name, o)
                raise Unsupported(f"attribute {name} of {o}")
            if name == "nbits":
                return o.w
            if name in ("uint", "int", "to_bits", "clone"):
                return _Bound(name, o)
            raise Unsupported(f"attribute {name} of {o}")
        if isinstance(o, SS):
            if name in o.f:
                return o.f[name]
            if name == "nbits":
                return o.cls.nbits
            if name in ("to_bits", "clone"):
                return _Bound(name, o)
            raise Unsupported(f"attribute {name} of struct")
        if isinstance(o, SB):
            if name == "nbits":
                return o.t.w
            if name in ("uint", "int", "to_bits", "clone"):
                return _Bound(name, o)
            raise Unsupported(f"attribute {name} of Bits")
        if isinstance(o, (PB, Conflict, Arr)):
            raise Unsupported(f"attribute {name} of {type(o).__name__}")
        if isinstance(o, type) and is_bitstruct_class(o) and name == "from_bits":
            return _Bound("from_bits", o)
        return self.wrap(getattr(o, name))

    def as_index(self, i):
        """Concrete int, or a term."""
        if isinstance(i, bool):
            return int(i)
        if isinstance(i, int):
            return i
        if isinstance(i, SB):
            return i.t.p if tm.is_c(i.t) else i.t
        if isinstance(i, PB):
            return i.t.p if tm.is_c(i.t) else i.t
        raise Unsupported(f"index of type {type(i).__name__}")

    def index_all(self, o, i, g, st):
        if isinstance(o, Choice) or isinstance(i, Choice):
            def alts(v):
                return v.alts if isinstance(v, Choice) else [(tm.TRUE, v)]
            out = []
            for g1, x in alts(o):
                for g2, y in alts(i):
                    gg = tm.and_(g1, g2)
                    if gg is tm.FALSE:
                        continue
                    r = self.index(x, y, tm.and_(g, gg), st)
                    if isinstance(r, Choice):
                        out.extend((tm.and_(gg, a), b) for a, b in r.alts)
                    else:
                        out.append((gg, r))
            return mk_choice(out)
        return self.index(o, i, g, st)

    def index(self, o, i, g, st):
        if isinstance(o, dict):
            return o[i]
        i = self.as_index(i)
        if isinstance(o, Arr):
            n = len(o.sigs)
            if isinstance(i, int):
                if not -n <= i < n:
                    self.oblige(g, tm.FALSE, "IndexError: list index")
                    i = 0
                return ArrRef(o, tm.const(i % n, o.watch.w), 0, o.type.nbits)
            self.oblige(g, in_range(i, n), "IndexError: list index")
            if i.w > o.watch.w:
                i = tm.trunc(i, o.watch.w)
            return ArrRef(o, i, 0, o.type.nbits)
        if isinstance(o, (list, tuple)):
            n = len(o)
            if isinstance(i, int):
                if not -n <= i < n:
                    self.oblige(g, tm.FALSE, "IndexError: list index")
                    i = 0
                return self.wrap(o[i])
            self.oblige(g, in_range(i, n), "IndexError: list index")
            alts = []
            rest = tm.TRUE
            for k in range(n):
                if k >> i.w:
                    break
                c = tm.eq(i, tm.const(k, i.w))
                last = (k == n - 1) or (k == (1 << i.w) - 1)
                alts.append((rest if last else c, self.wrap(o[k])))
                rest = tm.and_(rest, tm.not_(c))
            return mk_choice(alts)
        if isinstance(o, Ref) and not o.is_struct():
            if isinstance(i, int):
                if not 0 <= i < o.w:
                    self.oblige(g, tm.FALSE, f"IndexError: bit {i} of Bits{o.w}")
                    i = 0
                return Ref(o.sig, o.path, None, o.lo + i, 1)
            self.oblige(g, in_range(i, o.w), f"IndexError: bit index of Bits{o.w}")
            return DynBit(o, i)
        if isinstance(o, ArrRef):
            if isinstance(i, int):
                if not 0 <= i < o.w:
                    self.oblige(g, tm.FALSE, f"IndexError: bit {i} of Bits{o.w}")
                    i = 0
                return ArrRef(o.arr, o.idx, o.lo + i, 1)
            self.oblige(g, in_range(i, o.w), f"IndexError: bit index of Bits{o.w}")
            return ArrDynBit(o, i)
        if isinstance(o, (DynBit, ArrDynBit)):
            o = self.read_ref(st, o)
        if isinstance(o, SB):
            if isinstance(i, int):
                if not 0 <= i < o.t.w:
                    self.oblige(g, tm.FALSE, f"IndexError: bit {i} of Bits{o.t.w}")
                    i = 0
                return SB(tm.bit(o.t, i))
            self.oblige(g, in_range(i, o.t.w), f"IndexError: bit index of Bits{o.t.w}")
            return SB(dyn_get(o.t, i))
        raise Unsupported(f"index of {type(o).__name__}")

    def slice_(self, o, lo, hi, g, st):
        lo = None if lo is None else self.as_index(lo)
        hi = None if hi is None else self.as_index(hi)
        if isinstance(lo, tm.T) or isinstance(hi, tm.T):
            raise Unsupported("slice with symbolic bounds")
        if isinstance(o, (list, tuple)):
            return o[slice(lo, hi)]
        if isinstance(o, Ref) and not o.is_struct():
            w = o.w
        elif isinstance(o, ArrRef):
            w = o.w
        elif isinstance(o, SB):
            w = o.t.w
        else:
            raise Unsupported(f"slice of {type(o).__name__}")
        lo, hi = lo or 0, hi or w       # as Bits.__getitem__
        if not 0 <= lo < hi <= w:
            self.oblige(g, tm.FALSE, f"IndexError: [{lo}:{hi}] of Bits{w}")
            lo, hi = 0, w
        if isinstance(o, Ref):
            return Ref(o.sig, o.path, mk_bits(hi - lo), o.lo + lo, hi - lo)
        if isinstance(o, ArrRef):
            return ArrRef(o.arr, o.idx, o.lo + lo, hi - lo)
        return SB(tm.extract(o.t, lo, hi))

    # operators
    def coerce(self, a, b, g, what):
        """Pair of equally wide terms for a binary operator."""
        def one(x, w):
            if isinstance(x, SS):
                x = SB(to_bits(x))
            if isinstance(x, PB):
                return tm.zext(x.t, w)
            if isinstance(x, (bool, int)):
                x = int(x)
                if not 0 <= x < (1 << w):
                    self.oblige(g, tm.FALSE, f"ValueError: {x} with Bits{w} in {what}")
                return tm.const(x, w)
            if isinstance(x, SB):
                if x.t.w != w:
                    self.oblige(g, tm.FALSE, f"ValueError: Bits{x.t.w} with Bits{w} in {what}")
                    return tm.trunc(x.t, w) if x.t.w > w else tm.zext(x.t, w)
                return x.t
            raise Unsupported(f"operand of type {type(x).__name__}")
        w = a.t.w if isinstance(a, SB) else b.t.w
        return one(a, w), one(b, w)

    def binop(self, op, a, b, g):
        return choice_map(lambda x, y: self.binop1(op, x, y, g), a, b)

    def binop1(self, op, a, b, g):
        if isinstance(a, SS) or isinstance(b, SS):
            raise Unsupported("operator on struct")
        if not isinstance(a, (SB, PB)) and not isinstance(b, (SB, PB)):
            return _PYOPS[type(op)](a, b)
        if not isinstance(a, SB) and not isinstance(b, SB):
            # Python bool arithmetic
            if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and all(
                    isinstance(x, (PB, bool)) for x in (a, b)):
                x = a.t if isinstance(a, PB) else tm.bool_(a)
                y = b.t if isinstance(b, PB) else tm.bool_(b)
                return PB({ast.BitAnd: tm.and_, ast.BitOr: tm.or_,
                           ast.BitXor: tm.xor_}[type(op)](x, y))

            def alts(x):
                return Choice([(x.t, 1), (tm.not_(x.t), 0)]) if isinstance(x, PB) else x
            return self.binop(op, alts(a), alts(b), g)
        if isinstance(op, (ast.LShift, ast.RShift)) and not isinstance(a, SB):
            raise Unsupported("int shifted by Bits")
        x, y = self.coerce(a, b, g, type(op).__name__)
        k = type(op)
        if k in (ast.FloorDiv, ast.Mod):
            self.oblige(g, tm.nonzero(y), "ZeroDivisionError")
        f = {ast.Add: tm.add, ast.Sub: tm.sub, ast.Mult: tm.mul, ast.BitAnd: tm.and_,
             ast.BitOr: tm.or_, ast.BitXor: tm.xor_, ast.FloorDiv: tm.udiv,
             ast.Mod: tm.urem, ast.LShift: tm.shl, ast.RShift: tm.lshr}.get(k)
        if f is None:
            raise Unsupported(f"operator {k.__name__} on Bits")
        return SB(f(x, y))

    def unop(self, op, a, g):
        if isinstance(op, ast.Not):
            t = self.truth(a, g)
            return bool(not t.p) if tm.is_c(t) else PB(tm.not_(t))
        if isinstance(a, SB) and isinstance(op, ast.Invert):
            return SB(tm.not_(a.t))
        if isinstance(a, (SB, PB, SS)):
            raise Unsupported(f"unary {type(op).__name__}")
        return {ast.Invert: lambda x: ~x, ast.USub: lambda x: -x,
                ast.UAdd: lambda x: +x}[type(op)](a)

    def compare(self, op, a, b, g):
        k = type(op)
        if isinstance(a, SS) or isinstance(b, SS):
            if k in (ast.Eq, ast.NotEq):
                if not (isinstance(a, SS) and isinstance(b, SS)) or a.cls is not b.cls:
                    return k is ast.NotEq
                r = tm.eq(to_bits(a), to_bits(b))
                return PB(r if k is ast.Eq else tm.not_(r))
            raise Unsupported("comparison of structs")
        if not isinstance(a, (SB, PB)) and not isinstance(b, (SB, PB)):
            if k in (ast.In, ast.NotIn) and isinstance(b, (list, tuple, set)) and any(
                    isinstance(x, SB) for x in b):
                pass
            else:
                return _PYCMP[k](a, b)
        if k in (ast.In, ast.NotIn):
            r = tm.FALSE
            for x in self.iterate(b):
                r = tm.or_(r, self.truth(self.compare(ast.Eq(), a, x, g), g))
            return PB(r if k is ast.In else tm.not_(r))
        if k in (ast.Is, ast.IsNot):
            raise Unsupported("'is' on Bits")
        if not isinstance(a, SB) and not isinstance(b, SB):
            def alts(x):
                return Choice([(x.t, 1), (tm.not_(x.t), 0)]) if isinstance(x, PB) else x
            return choice_map(lambda x, y: self.compare(op, x, y, g), alts(a), alts(b))
        if b is None or isinstance(b, str) or a is None or isinstance(a, str):
            raise Unsupported("comparison of Bits with None/str")
        x, y = self.coerce(a, b, g, type(op).__name__)
        r = {ast.Eq: lambda: tm.eq(x, y), ast.NotEq: lambda: tm.ne(x, y),
             ast.Lt: lambda: tm.ult(x, y), ast.LtE: lambda: tm.ule(x, y),
             ast.Gt: lambda: tm.ult(y, x), ast.GtE: lambda: tm.ule(y, x)}[k]()
        return SB(r)

    # calls
    def call(self, e, st, g):
        f = self._ev(e.func, st, g)
        f = self.rval(st, f) if isinstance(f, (Ref,)) else f
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                args.extend(self.iterate(self.ev(x.value, st, g)))
            else:
                args.append(self.ev(x, st, g, want_ref=isinstance(f, (types.FunctionType, _LocalFn))))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported("**kwargs")
            kw[k.arg] = self.ev(k.value, st, g)
        return self.apply(f, args, kw, st, g)

    def apply(self, f, args, kw, st, g):
        rv = [self.rval(st, a) for a in args]
        if isinstance(f, _Bound):
            if f.name == "from_bits":
                t = to_bits(rv[0])
                if t.w != f.obj.nbits:
                    self.oblige(g, tm.FALSE, "AssertionError: from_bits width")
                    t = tm.const(0, f.obj.nbits)
                return from_bits(f.obj, t)
            o = self.rval(st, f.obj)
            if f.name == "to_bits":
                return SB(to_bits(o))
            if f.name == "clone":
                return o
            if f.name == "uint":
                return self.to_int(o)
            raise Unsupported(f"method {f.name}")
        if f is H.concat or f is pymtl3.concat:
            ts = []
            for a in rv:
                if isinstance(a, Choice):
                    a = mk_choice(a.alts)
                if not isinstance(a, (SB,)):
                    if isinstance(a, SS):
                        raise Unsupported("concat of a struct")
                    raise Unsupported("concat of a non-Bits value")
                ts.append(a.t)
            return SB(tm.concat(*ts))
        if f in (H.zext, H.sext, H.trunc):
            return choice_map(lambda v, n: self.resize(f, v, n, g), rv[0], rv[1])
        if f is H.reduce_or:
            return SB(tm.nonzero(rv[0].t))
        if f is H.reduce_and:
            return SB(tm.eq(rv[0].t, tm.const(-1, rv[0].t.w)))
        if f is H.reduce_xor:
            r = tm.FALSE
            for i in range(rv[0].t.w):
                r = tm.xor_(r, tm.bit(rv[0].t, i))
            return SB(r)
        if isinstance(f, type) and issubclass(f, Bits):
            if f is Bits:
                w, v = rv[0], (rv[1] if len(rv) > 1 else kw.get("v", 0))
            else:
                w, v = f.nbits, (rv[0] if rv else kw.get("v", 0))
            tr = bool(kw.get("trunc_int", False))
            return choice_map(lambda x: self.mkbits(w, x, tr, g), v)
        if isinstance(f, type) and is_bitstruct_class(f):
            fs = fields_of(f)
            vals = {}
            for n, v in zip(fs, rv):
                vals[n] = v
            vals.update(kw)
            out = {}
            for n, T in fs.items():
                if n not in vals:
                    out[n] = from_bits(T, tm.const(0, _width(T)))
                elif is_bitstruct_class(T):
                    v = vals[n]
                    if not (isinstance(v, SS) and v.cls is T):
                        raise Unsupported("nested struct argument")
                    out[n] = v
                elif isinstance(T, list):
                    out[n] = vals[n]
                else:
                    out[n] = choice_map(lambda x, T=T: self.mkbits(T.nbits, x, False, g), vals[n])
            return SS(f, out)
        if f is int:
            return choice_map(self.to_int, rv[0]) if rv else 0
        if f is bool:
            t = self.truth(rv[0], g)
            return bool(t.p) if tm.is_c(t) else PB(t)
        if f is len:
            x = args[0]
            if isinstance(x, Arr):
                return len(x.sigs)
            return len(rv[0])
        if f in (range, enumerate, zip, list, tuple, reversed, min, max, sum, abs, any, all, sorted):
            if f is range:
                rv = [self.as_index(x) for x in rv]
                if any(isinstance(x, tm.T) for x in rv):
                    raise Unsupported("range over a symbolic bound")
                return range(*rv)
            if f in (any, all) :
                r = None
                for x in self.iterate(rv[0]):
                    t = self.truth(x, g)
                    r = t if r is None else (tm.or_(r, t) if f is any else tm.and_(r, t))
                r = tm.bool_(f is all) if r is None else r
                return bool(r.p) if tm.is_c(r) else PB(r)
            if f in (min, max, sum, abs, sorted):
                its = rv if len(rv) > 1 or f is abs else self.iterate(rv[0])
                if any(isinstance(x, (SB, PB, Choice)) for x in its):
                    if f is sum:
                        r = rv[1] if len(rv) > 1 else 0
                        for x in self.iterate(rv[0]):
                            r = self.binop(ast.Add(), r, x, g)
                        return r
                    raise Unsupported(f"{f.__name__} of symbolic values")
                return f(*rv)
            seqs = []
            for x in rv:
                seqs.append([self.wrap(y) for y in x] if isinstance(x, list) else x)
            return f(*seqs)
        if f is H.clog2:
            return H.clog2(*rv)
        if f in (mk_bits,):
            return mk_bits(*rv)
        if f is isinstance:
            raise Unsupported("isinstance")
        if isinstance(f, _LocalFn):
            return self.inline(f.node, args, kw, st, g, f.env, None)
        if isinstance(f, types.MethodType):
            return self.inline_fn(f.__func__, [f.__self__] + list(args), kw, st, g)
        if isinstance(f, types.FunctionType):
            return self.inline_fn(f, args, kw, st, g)
        if f is print:
            return None
        raise Unsupported(f"call of {f!r}")

    def inline_fn(self, f, args, kw, st, g):
        try:
            src = textwrap.dedent(inspect.getsource(f))
            tree = ast.parse(src).body[0]
        except (OSError, SyntaxError) as ex:
            raise Unsupported(f"source of {f.__name__}: {ex}")
        if not isinstance(tree, ast.FunctionDef):
            raise Unsupported(f"source of {f.__name__}")
        return self.inline(tree, args, kw, st, g, None, f)

    def inline(self, node, args, kw, st, g, envloc, fn):
        self.depth += 1
        if self.depth > 50:
            raise Unsupported("recursion")
        names = [a.arg for a in node.args.args]
        if node.args.vararg or node.args.kwarg or node.args.kwonlyargs:
            raise Unsupported("argument form")
        st2 = st.copy()
        saved_fr = self.fr
        if fn is not None:
            self.fr = Frame(fn)
            st2.loc = {}
        else:
            st2.loc = dict(envloc)
        defaults = node.args.defaults
        for n, dflt in zip(names[len(names) - len(defaults):], defaults):
            st2.loc[n] = self.ev(dflt, st2, g)
        for n, a in zip(names, args):
            st2.loc[n] = a
        for n, a in kw.items():
            st2.loc[n] = a
        line = self.line
        if isinstance(node, ast.Lambda):
            v = self.ev(node.body, st2, g)
            sout = st2
        else:
            outs = self.exec_body(node.body, st2, g)
            r = self.join(outs.get(RETURN), outs.get(NORMAL)) if NORMAL not in outs or \
                outs[NORMAL][0] is not tm.FALSE else outs[RETURN]
            _, sout, v = r
        self.line = line
        self.fr = saved_fr
        self.depth -= 1
        # signals written by the helper
        st.cur, st.nxt, st.arr, st.arrn = sout.cur, sout.nxt, sout.arr, sout.arrn
        return v

    def to_int(self, v):
        if isinstance(v, (int,)):
            return int(v)
        if isinstance(v, PB):
            return Choice([(v.t, 1), (tm.not_(v.t), 0)]) if not tm.is_c(v.t) else v.t.p
        if isinstance(v, SB):
            if tm.is_c(v.t):
                return v.t.p
            if v.t.w <= 8:
                return mk_choice([(tm.eq(v.t, tm.const(i, v.t.w)), i) for i in range(1 << v.t.w)])
        raise Unsupported("int() of a wide symbolic value")

    def resize(self, f, v, n, g):
        if isinstance(n, type) and issubclass(n, Bits):
            n = n.nbits
        if isinstance(n, SB) and tm.is_c(n.t):
            n = n.t.p
        if not isinstance(n, int):
            raise Unsupported("resize to a symbolic width")
        if isinstance(v, SS):
            v = SB(to_bits(v))
        if not isinstance(v, SB):
            raise Unsupported("resize of a non-Bits value")
        ok = n <= v.t.w if f is H.trunc else n >= v.t.w
        if not ok:
            self.oblige(g, tm.FALSE, f"AssertionError: {f.__name__} Bits{v.t.w} to {n}")
            return SB(tm.const(0, n))
        return SB({H.trunc: tm.trunc, H.zext: tm.zext, H.sext: tm.sext}[f](v.t, n))

    def mkbits(self, w, v, trunc_int, g):
        if isinstance(v, SS):
            v = SB(to_bits(v))
        if isinstance(v, SB):
            if v.t.w != w:
                self.oblige(g, tm.FALSE, f"ValueError: Bits{v.t.w} to Bits{w}()")
                return SB(tm.trunc(v.t, w) if v.t.w > w else tm.zext(v.t, w))
            return v
        if isinstance(v, PB):
            return SB(tm.zext(v.t, w))
        v = int(v)
        if not trunc_int and not (-(1 << (w - 1)) <= v < (1 << w)):
            self.oblige(g, tm.FALSE, f"ValueError: {v} to Bits{w}()")
        return SB(tm.const(v, w))


class _LocalName:
    def __init__(self, n):
        self.n = n


class _LocalFn:
    def __init__(self, node, env_):
        self.node, self.env = node, env_


class _Bound:
    def __init__(self, name, obj):
        self.name, self.obj = name, obj


def in_range(i, n):
    """i < n for a term i."""
    if n >= (1 << i.w):
        return tm.TRUE
    return tm.ult(i, tm.const(n, i.w))


def dyn_get(t, i):
    """bit i of t (0 when out of range; an obligation excludes that)"""
    if t.w <= 16:
        r = tm.FALSE
        for k in range(t.w):
            if k >> i.w:
                break
            r = tm.or_(r, tm.and_(tm.eq(i, tm.const(k, i.w)), tm.bit(t, k)))
        return r
    w = max(t.w, i.w)
    return tm.bit(tm.lshr(tm.zext(t, w), tm.zext(i, w)), 0)


def dyn_set(t, i, v):
    if t.w <= 64:
        bits = []
        for k in range(t.w):
            b = tm.bit(t, k)
            if k >> i.w == 0:
                b = tm.ite(tm.eq(i, tm.const(k, i.w)), v, b)
            bits.append(b)
        return tm.concat(*reversed(bits))
    w = max(t.w, i.w)
    m = tm.shl(tm.const(1, w), tm.zext(i, w))
    m = tm.trunc(m, t.w)
    s = tm.trunc(tm.shl(tm.zext(v, w), tm.zext(i, w)), t.w)
    return tm.or_(tm.and_(t, tm.not_(m)), s)


import operator as _o  # noqa: E402

_PYOPS = {ast.Add: _o.add, ast.Sub: _o.sub, ast.Mult: _o.mul, ast.FloorDiv: _o.floordiv,
          ast.Mod: _o.mod, ast.LShift: _o.lshift, ast.RShift: _o.rshift, ast.BitAnd: _o.and_,
          ast.BitOr: _o.or_, ast.BitXor: _o.xor, ast.Pow: _o.pow, ast.Div: _o.truediv}
_PYCMP = {ast.Eq: _o.eq, ast.NotEq: _o.ne, ast.Lt: _o.lt, ast.LtE: _o.le, ast.Gt: _o.gt,
          ast.GtE: _o.ge, ast.Is: _o.is_, ast.IsNot: _o.is_not,
          ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b}
