"""Elaborates a real component from /repo and turns it into a transition
relation over terms: one term per register (next value) and per output."""

import ast
import sys

from . import env  # noqa: F401
from . import term as tm
from . import sym
from .sym import (Arr, Interp, Ref, Unsupported, fields_of, leafname,
                  type_leaves)

from pymtl3.datatypes import Bits, is_bitstruct_class
from pymtl3.dsl import Signal
from pymtl3.dsl.Connectable import Const
import pymtl3.dsl.ComponentLevel2 as CL2


class CombLoop(Exception):
    """A true combinational cycle, or a latch (a combinational block that does
    not assign its output on some path)."""


# Record the syntax tree PyMTL associates with each update block *function*
# (PyMTL itself caches by class and name, where the last instance wins).
_trees = {}
_orig_cache = CL2.ComponentLevel2._cache_func_meta


def _cache(s, func, is_update_ff, given=None):
    _orig_cache(s, func, is_update_ff, given)
    if given is not None:
        _trees[func] = given[1]


CL2.ComponentLevel2._cache_func_meta = _cache
_src_cache = {}


def tree_of(func):
    if func in _trees:
        t = _trees[func]
        # module -> closure factory -> update block
        for n in ast.walk(t):
            if isinstance(n, ast.FunctionDef) and n.name == func.__name__:
                return n
        raise Unsupported(f"lambda block {func.__name__}")
    import inspect
    import textwrap
    key = func.__code__
    if key not in _src_cache:
        tree = ast.parse(textwrap.dedent(inspect.getsource(func)))
        node = tree.body[0]
        ast.increment_lineno(tree, func.__code__.co_firstlineno - 1)
        _src_cache[key] = node
    return _src_cache[key]


class Design:
    """cuts: {component: contract object}; the blocks inside a cut component
    are not used, its output values come from the contract."""

    def __init__(self, top, cuts=None, watch=None):
        self.top = top
        self.cuts = cuts or {}
        self.watch = watch or {}    # full name of signal list -> watch term
        self.arrays = {}
        self._arr_by_id = {}
        self._ph = {}
        self._w = {}
        self.obls = []              # (unresolved condition, text)
        self.inputs = {}            # name -> width : free input variables
        self.regs = {}              # leafkey -> var term
        self.reg_next = {}
        self.undriven = {}
        self._val = {}
        self._sub = {}
        self._busy = set()
        self.blocks = 0
        self.block_names = []
        self._build()

    # ---------------------------------------------------------- names, leaves
    def leaf_width(self, sig, path):
        k = (sig, path)
        if k not in self._w:
            T = sig._dsl.Type
            for p in path:
                T = fields_of(T)[p] if isinstance(p, str) else T[p]
            if is_bitstruct_class(T) or isinstance(T, list):
                raise Unsupported(f"not a leaf: {leafname(sig, path)}")
            self._w[k] = T.nbits
        return self._w[k]

    def placeholder(self, sig, path, w):
        k = (sig, path)
        t = self._ph.get(k)
        if t is None:
            t = self._ph[k] = tm.var(k, w)
        assert t.w == w
        return t

    def sigref(self, s):
        """Ref for an elaborated PyMTL signal object (top, field or slice)."""
        path, lo, w = [], 0, None
        x = s
        T = s._dsl.Type
        if s._dsl.slice is not None:
            sl = s._dsl.slice
            lo, w = sl.start, sl.stop - sl.start
            x = s._dsl.parent_obj
        top = s._dsl.top_level_signal
        while x is not top:
            idx = list(getattr(x._dsl, "_my_indices", None) or [])
            path = [x._dsl._my_name] + idx + path
            x = x._dsl.parent_obj
        return Ref(top, tuple(path), T, lo, T.nbits if w is None else w)

    def fieldref(self, sig, path, T):
        if isinstance(T, list):
            return [self.fieldref(sig, path + (i,), x) for i, x in enumerate(T)]
        return Ref(sig, path, T, 0, T.nbits)

    def ref_leaves(self, r):
        """[(sig, path, lo, w)] most significant first."""
        if r.is_struct():
            return [(r.sig, r.path + p, 0, w) for p, w in type_leaves(r.type)]
        return [(r.sig, r.path, r.lo, r.w)]

    # ---------------------------------------------------------- watched arrays
    def array_of(self, lst):
        if not self.watch or not lst:
            return None
        a = self._arr_by_id.get(id(lst[0]))
        if a is not None:
            return a[0] if len(lst) == a[1] else None
        base = repr(lst[0]).rsplit("[", 1)[0]
        if base in self.watch and len(lst) == self.watch[base][1]:
            a = Arr(base, lst, self.watch[base][0])
            self.arrays[base] = a
            self._arr_by_id[id(lst[0])] = (a, len(lst))
            return a
        return None

    def arr_placeholder(self, a):
        return tm.var(("arr", a.name), a.type.nbits)

    def arr_other(self, a, idx):
        """Some element other than the watched one: unconstrained, the same
        for equal index terms."""
        return tm.var(("other", a.name, idx.id), a.type.nbits)

    # ---------------------------------------------------------- construction
    def _cut_of(self, comp):
        c = comp
        while True:
            if c in self.cuts:
                return c
            if c is self.top:
                return None
            c = c.get_parent_object()

    def _build(self):
        top = self.top
        self.ff = top.get_all_update_ff()
        self.drivers = {}       # (sig, path) -> [(lo, hi, kind, payload)]
        self.summaries = {}
        for blk in sorted(top.get_all_update_blocks(), key=lambda b: (
                repr(top.get_update_block_host_component(b)), b.__name__)):
            host = top.get_update_block_host_component(blk)
            if self._cut_of(host) is not None:
                continue
            self._summarise(blk, host, blk in self.ff)
        for c, con in self.cuts.items():
            for sig, path, w in con.outputs(self):
                self._drive(sig, path, 0, w, "cut", con)
        for writer, readers in top.get_all_value_nets():
            if writer is None:
                continue
            self._net(writer, readers)
        for con in self.cuts.values():
            con.attach(self)

    def _summarise(self, blk, host, is_ff):
        it = Interp(self, blk, tree_of(blk), is_ff)
        st = it.execute()
        self.blocks += 1
        self.block_names.append(f"{host!r}.{blk.__name__}")
        for ok, text in it.obls:
            self.obls.append((ok, f"{host!r}: {text}"))
        for k, mask in st.wmask.items():
            if k[0] == "arr":
                self.drivers.setdefault(k, []).append((blk, mask))
                if mask:
                    self.reg_next[k] = st.arrn[k[1]]
                else:
                    self.summaries[("arrc", k[1])] = st.arr[k[1]]
                continue
            sig, path = k
            if is_ff:
                if k in st.cur:
                    raise Unsupported(f"@= in update_ff {blk.__name__}")
                w = self.leaf_width(sig, path)
                if k in self.reg_next:
                    raise Unsupported(f"two drivers of {leafname(sig, path)}")
                self.regs[k] = self.placeholder(sig, path, w)
                self.reg_next[k] = st.nxt[k]
                self._drive(sig, path, 0, w, "reg", None)
            else:
                if k in st.nxt:
                    raise Unsupported(f"<<= in update {blk.__name__}")
                t = st.cur[k]
                for lo, hi in runs(mask):
                    self._drive(sig, path, lo, hi, "blk", t)

    def _drive(self, sig, path, lo, hi, kind, payload):
        d = self.drivers.setdefault((sig, path), [])
        for l, h, *_ in d:
            if l < hi and lo < h:
                raise Unsupported(f"two drivers of {leafname(sig, path)}[{lo}:{hi}]")
        d.append((lo, hi, kind, payload))

    def _net(self, writer, readers):
        if isinstance(writer, Const):
            v = sym.from_concrete(writer._dsl.const)
            wl = None
            if isinstance(v, (int,)):
                v = None
        else:
            cut = self._cut_of(self._host(self.sigref(writer).sig))
            if cut is not None and not (self._host(writer) is cut):
                # driven from inside a cut component: its output port, which
                # the contract drives, stands for the writer
                outs = [r for r in readers if not isinstance(r, Const) and
                        self._host(self.sigref(r).sig) is cut
                        and self.sigref(r).sig.is_output_value_port()]
                if outs:
                    writer = outs[0]
            wl = self.ref_leaves(self.sigref(writer))
        for r in readers:
            if r is writer:
                continue
            if isinstance(r, Const):
                continue
            rr = self.sigref(r)
            if self._cut_of(self._host(rr.sig)) is not None and \
                    not self._is_boundary_in(rr.sig):
                continue
            rl = self.ref_leaves(rr)
            if wl is None:
                c = writer._dsl.const
                if isinstance(c, int) and not isinstance(c, Bits):
                    t = tm.const(c, sum(x[3] for x in rl))
                else:
                    t = sym.to_bits(sym.from_concrete(c))
                hi = t.w
                for s, p, lo, w in rl:
                    self._drive(s, p, lo, lo + w, "const", tm.extract(t, hi - w, hi))
                    hi -= w
                continue
            # align the two leaf sequences, most significant first
            a, b = [list(x) for x in wl], [list(x) for x in rl]
            if sum(x[3] for x in a) != sum(x[3] for x in b):
                raise Unsupported(f"net width mismatch {writer!r} -> {r!r}")
            while a:
                w = min(a[0][3], b[0][3])
                (s1, p1, l1, w1), (s2, p2, l2, w2) = a[0], b[0]
                self._drive(s2, p2, l2 + w2 - w, l2 + w2, "net",
                            (s1, p1, l1 + w1 - w, l1 + w1))
                for q in (a, b):
                    q[0][3] -= w
                    if q[0][3] == 0:
                        q.pop(0)

    def _host(self, sig):
        return sig.get_host_component()

    def _is_boundary_in(self, sig):
        """input port of a cut component itself (not of something inside)"""
        return self._host(sig) in self.cuts and sig.is_input_value_port()

    # ---------------------------------------------------------- resolution
    def value(self, sig, path=(), lo=None, hi=None):
        """Term for bits [lo,hi) of a leaf, over input and register variables."""
        w = self.leaf_width(sig, path)
        if lo is None:
            lo, hi = 0, w
        key = (sig, path, lo, hi)
        r = self._val.get(key)
        if r is not None:
            return r
        full = self._val.get((sig, path, 0, w))
        if full is not None:
            return tm.extract(full, lo, hi)
        if key in self._busy:
            raise CombLoop(f"combinational loop or latch at {leafname(sig, path)}[{lo}:{hi}]")
        self._busy.add(key)
        try:
            parts = []
            pos = lo
            for l, h, kind, pay in sorted(self.drivers.get((sig, path), []),
                                          key=lambda d: d[0]):
                a, b = max(l, pos), min(h, hi)
                if a >= b:
                    continue
                if a > pos:
                    parts.append(self._free(sig, path, pos, a))
                if kind == "reg":
                    t = tm.extract(self.regs[(sig, path)], a, b)
                elif kind == "blk":
                    t = self.resolve(tm.extract(pay, a, b))
                elif kind == "const":
                    t = tm.extract(pay, a - l, b - l)
                elif kind == "net":
                    s1, p1, l1, h1 = pay
                    t = self.value(s1, p1, l1 + a - l, l1 + b - l)
                elif kind == "cut":
                    t = tm.extract(pay.output(self, sig, path), a, b)
                parts.append(t)
                pos = b
            if pos < hi:
                parts.append(self._free(sig, path, pos, hi))
            r = tm.concat(*reversed(parts))
        finally:
            self._busy.discard(key)
        self._val[key] = r
        return r

    def _free(self, sig, path, lo, hi):
        w = self.leaf_width(sig, path)
        v = self.placeholder(sig, path, w)
        host = self._host(sig)
        if host is self.top and sig.is_input_value_port():
            self.inputs[(sig, path)] = v
        else:
            self.undriven[(sig, path)] = v
        return tm.extract(v, lo, hi)

    def resolve(self, t):
        """Replace placeholders of combinational signals by their values."""
        sub = self._sub
        if t.id in sub:
            return sub[t.id]
        stack = [(t, False)]
        while stack:
            x, done = stack.pop()
            if x.id in sub:
                continue
            if x.op == "c":
                sub[x.id] = x
            elif x.op == "v":
                sub[x.id] = self._resolve_var(x, 0, x.w)
            elif x.op == "ext" and x.a[0].op == "v":
                sub[x.id] = self._resolve_var(x.a[0], x.p[0], x.p[1])
            elif x.op == "ite" and not done:
                # resolve the condition first: a constant condition cuts off
                # the other side
                stack.append((x, True))
                stack.append((x.a[0], False))
            elif x.op == "ite":
                c = sub[x.a[0].id]
                need = [x.a[1], x.a[2]] if c.op != "c" else [x.a[1] if c.p else x.a[2]]
                miss = [y for y in need if y.id not in sub]
                if miss:
                    stack.append((x, True))
                    stack.extend((y, False) for y in miss)
                elif c.op == "c":
                    sub[x.id] = sub[need[0].id]
                else:
                    sub[x.id] = tm.ite(c, sub[need[0].id], sub[need[1].id])
            elif done:
                sub[x.id] = tm.rebuild(x, [sub[y.id] for y in x.a])
            else:
                stack.append((x, True))
                for y in x.a:
                    if y.id not in sub:
                        stack.append((y, False))
        return sub[t.id]

    def _resolve_var(self, x, lo, hi):
        k = x.p
        if not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], Signal)):
            if isinstance(k, tuple) and k[0] == "arr":
                c = self.summaries.get(("arrc", k[1]))
                if c is not None:
                    # what the block does not assign (a latch) is left free
                    if ("free", k[1]) not in self.summaries:
                        self.summaries[("free", k[1])] = tm.subst(
                            c, {k: tm.var(("latch", k[1]), x.w)}, {})
                    return tm.extract(self.resolve(self.summaries[("free", k[1])]), lo, hi)
            return tm.extract(x, lo, hi)
        if k in self.regs:
            return tm.extract(x, lo, hi)
        return self.value(k[0], k[1], lo, hi)

    # ---------------------------------------------------------- public views
    def get(self, name):
        """Value (struct of terms or a term) of a signal given by path, e.g.
        'cacheCtrl.trans_M1.out' relative to the top component."""
        o = self.top
        ref = None
        for part in tokens(name):
            if ref is None:
                o = o[part] if isinstance(part, int) else getattr(o, part)
                if isinstance(o, Signal):
                    ref = self.sigref(o)
            else:
                ref = self.fieldref(ref.sig, ref.path + (part,), fields_of(ref.type)[part])
        return self.ref_term(ref)

    def ref_term(self, r):
        return tm.concat(*[self.value(s, p, lo, lo + w)
                           for s, p, lo, w in self.ref_leaves(r)])

    def next_terms(self):
        return {k: self.resolve(t) for k, t in self.reg_next.items()}

    def obligations(self):
        return [(self.resolve(o), text) for o, text in self.obls]


def tokens(name):
    out = []
    for p in name.replace("[", ".[").split("."):
        if not p:
            continue
        out.append(int(p[1:-1]) if p.startswith("[") else p)
    return out


def runs(mask):
    lo = 0
    while mask >> lo:
        if (mask >> lo) & 1:
            hi = lo
            while (mask >> hi) & 1:
                hi += 1
            yield lo, hi
            lo = hi
        else:
            lo += 1
