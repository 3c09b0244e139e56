"""Hash-consed bit-vector terms with local simplification.

Every term is an unsigned bit vector of fixed width; a Boolean is a 1-bit
vector.  The meaning of each operator is fixed by `evaluate` below (Python
integers), and the SMT export (`to_z3`) is cross-checked against it by
selftest.py."""

_table = {}
_next = [0]


class T:
    __slots__ = ("op", "w", "a", "p", "id", "__weakref__")

    def __repr__(self):
        return show(self, 4)

    # Guard against accidental use of Python operators on terms.
    def __bool__(self):
        raise TypeError("symbolic term used as a Python bool")

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return self.id


def _mk(op, w, a=(), p=None):
    key = (op, w, p) + tuple(x.id for x in a)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.w, t.a, t.p = op, w, a, p
        t.id = _next[0]
        _next[0] += 1
        _table[key] = t
    return t


def const(v, w):
    assert w > 0
    return _mk("c", w, (), v & ((1 << w) - 1))


def var(name, w):
    return _mk("v", w, (), name)


TRUE, FALSE = const(1, 1), const(0, 1)


def is_c(t):
    return t.op == "c"


def bool_(b):
    return TRUE if b else FALSE


def not_(a):
    if a.op == "c":
        return const(~a.p, a.w)
    if a.op == "not":
        return a.a[0]
    return _mk("not", a.w, (a,))


def _is_neg(a, b):
    return (a.op == "not" and a.a[0] is b) or (b.op == "not" and b.a[0] is a)


def and_(a, b):
    assert a.w == b.w, (a.w, b.w)
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        if b.p == 0:
            return b
        if b.p == (1 << a.w) - 1:
            return a
        if a.op == "c":
            return const(a.p & b.p, a.w)
    if a is b:
        return a
    if _is_neg(a, b):
        return const(0, a.w)
    if a.w == 1:
        # absorption one level deep
        for x, y in ((a, b), (b, a)):
            if x.op == "and" and (x.a[0] is y or x.a[1] is y):
                return x
            if x.op == "or" and (x.a[0] is y or x.a[1] is y):
                return y
            if x.op == "and" and (_is_neg(x.a[0], y) or _is_neg(x.a[1], y)):
                return FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk("and", a.w, (a, b))


def or_(a, b):
    assert a.w == b.w, (a.w, b.w)
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        if b.p == 0:
            return a
        if b.p == (1 << a.w) - 1:
            return b
        if a.op == "c":
            return const(a.p | b.p, a.w)
    if a is b:
        return a
    if _is_neg(a, b):
        return const(-1, a.w)
    if a.w == 1:
        for x, y in ((a, b), (b, a)):
            if x.op == "or" and (x.a[0] is y or x.a[1] is y):
                return x
            if x.op == "and" and (x.a[0] is y or x.a[1] is y):
                return y
            if x.op == "or" and (_is_neg(x.a[0], y) or _is_neg(x.a[1], y)):
                return TRUE
    if a.id > b.id:
        a, b = b, a
    return _mk("or", a.w, (a, b))


def xor_(a, b):
    assert a.w == b.w, (a.w, b.w)
    if a.op == "c" and b.op == "c":
        return const(a.p ^ b.p, a.w)
    if a is b:
        return const(0, a.w)
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        if b.p == 0:
            return a
        if b.p == (1 << a.w) - 1:
            return not_(a)
    if a.id > b.id:
        a, b = b, a
    return _mk("xor", a.w, (a, b))


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return eq(a, b)


def andl(*xs):
    r = TRUE
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = andl(*x)
        r = and_(r, x)
    return r


def orl(*xs):
    r = FALSE
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = orl(*x)
        r = or_(r, x)
    return r


def eq(a, b):
    assert a.w == b.w, (a.w, b.w)
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return bool_(a.p == b.p)
    if a.op == "c":
        a, b = b, a
    if a.w == 1:
        if b.op == "c":
            return a if b.p else not_(a)
        return not_(xor_(a, b))
    if b.op == "c":
        # push equality-with-constant through ite with constant leaves,
        # zext and concat
        if a.op == "ite":
            c, x, y = a.a
            if x.op == "c" or y.op == "c":
                return ite(c, eq(x, b), eq(y, b))
        if a.op == "zext":
            x = a.a[0]
            if b.p >> x.w:
                return FALSE
            return eq(x, const(b.p, x.w))
        if a.op == "concat":
            r = TRUE
            sh = a.w
            for x in a.a:
                sh -= x.w
                r = and_(r, eq(x, const(b.p >> sh, x.w)))
            return r
        if a.op == "not":
            return eq(a.a[0], const(~b.p, b.w))
    if b.op != "c" and a.id > b.id:
        a, b = b, a
    return _mk("eq", 1, (a, b))


def ne(a, b):
    return not_(eq(a, b))


def ult(a, b):
    assert a.w == b.w
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c":
        return bool_(a.p < b.p)
    if b.op == "c" and b.p == 0:
        return FALSE
    if b.op == "c" and b.p == 1:
        return eq(a, const(0, a.w))
    if a.op == "c" and a.p == (1 << a.w) - 1:
        return FALSE
    if a.w == 1:
        return and_(not_(a), b)
    if b.op == "c" and a.op == "ite" and (a.a[1].op == "c" or a.a[2].op == "c"):
        c, x, y = a.a
        return ite(c, ult(x, b), ult(y, b))
    if b.op == "c" and a.op == "zext":
        x = a.a[0]
        if b.p >> x.w:
            return TRUE
        return ult(x, const(b.p, x.w))
    return _mk("ult", 1, (a, b))


def ule(a, b):
    return not_(ult(b, a))


def slt(a, b):
    m = const(1 << (a.w - 1), a.w)
    return ult(xor_(a, m), xor_(b, m))


def add(a, b):
    assert a.w == b.w
    if a.op == "c" and b.op == "c":
        return const(a.p + b.p, a.w)
    if a.op == "c":
        a, b = b, a
    if b.op == "c" and b.p == 0:
        return a
    if b.op == "c" and a.op == "add" and a.a[1].op == "c":
        return add(a.a[0], const(a.a[1].p + b.p, a.w))
    if b.op != "c" and a.id > b.id:
        a, b = b, a
    return _mk("add", a.w, (a, b))


def sub(a, b):
    assert a.w == b.w
    if b.op == "c":
        return add(a, const(-b.p, a.w))
    if a is b:
        return const(0, a.w)
    return _mk("sub", a.w, (a, b))


def mul(a, b):
    assert a.w == b.w
    if a.op == "c" and b.op == "c":
        return const(a.p * b.p, a.w)
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        if b.p == 0:
            return b
        if b.p & (b.p - 1) == 0:
            return shl_c(a, b.p.bit_length() - 1)
    return _mk("mul", a.w, (a, b))


def udiv(a, b):  # division by zero must be excluded by an obligation
    assert a.w == b.w
    if b.op == "c":
        if a.op == "c" and b.p:
            return const(a.p // b.p, a.w)
        if b.p and b.p & (b.p - 1) == 0:
            return lshr_c(a, b.p.bit_length() - 1)
    return _mk("udiv", a.w, (a, b))


def urem(a, b):
    assert a.w == b.w
    if b.op == "c":
        if a.op == "c" and b.p:
            return const(a.p % b.p, a.w)
        if b.p and b.p & (b.p - 1) == 0:
            return and_(a, const(b.p - 1, a.w))
    return _mk("urem", a.w, (a, b))


def shl_c(a, n):
    if n == 0:
        return a
    if n >= a.w:
        return const(0, a.w)
    return concat(extract(a, 0, a.w - n), const(0, n))


def lshr_c(a, n):
    if n == 0:
        return a
    if n >= a.w:
        return const(0, a.w)
    return zext(extract(a, n, a.w), a.w)


def shl(a, b):
    assert a.w == b.w
    if b.op == "c":
        return shl_c(a, b.p)
    if a.op == "c" and a.p == 0:
        return a
    return _mk("shl", a.w, (a, b))


def lshr(a, b):
    assert a.w == b.w
    if b.op == "c":
        return lshr_c(a, b.p)
    if a.op == "c" and a.p == 0:
        return a
    return _mk("lshr", a.w, (a, b))


def ite(c, x, y):
    assert c.w == 1 and x.w == y.w, (c.w, x.w, y.w)
    if c.op == "c":
        return x if c.p else y
    if x is y:
        return x
    if c.op == "not":
        return ite(c.a[0], y, x)
    if x.w == 1:
        if x.op == "c":
            return or_(c, y) if x.p else and_(not_(c), y)
        if y.op == "c":
            return or_(not_(c), x) if y.p else and_(c, x)
    if x.op == "ite" and x.a[0] is c:
        x = x.a[1]
    if y.op == "ite" and y.a[0] is c:
        y = y.a[2]
    if x is y:
        return x
    if y.op == "ite" and y.a[1] is x:
        return ite(or_(c, y.a[0]), x, y.a[2])
    return _mk("ite", x.w, (c, x, y))


def concat(*xs):
    """xs[0] is the most significant."""
    out = []
    for x in xs:
        if x.op == "concat":
            out.extend(x.a)
        else:
            out.append(x)
    r = []
    for x in out:
        if r:
            l = r[-1]
            if l.op == "c" and x.op == "c":
                r[-1] = const((l.p << x.w) | x.p, l.w + x.w)
                continue
            if l.op == "ext" and x.op == "ext" and l.a[0] is x.a[0] and l.p[0] == x.p[1]:
                r[-1] = extract(l.a[0], x.p[0], l.p[1])
                continue
        r.append(x)
    if len(r) == 1:
        return r[0]
    if len(r) == 2 and r[0].op == "c" and r[0].p == 0:
        return zext(r[1], r[0].w + r[1].w)
    return _mk("concat", sum(x.w for x in r), tuple(r))


def zext(a, w):
    if w == a.w:
        return a
    assert w > a.w
    if a.op == "c":
        return const(a.p, w)
    if a.op == "zext":
        a = a.a[0]
    return _mk("zext", w, (a,))


def sext(a, w):
    if w == a.w:
        return a
    s = extract(a, a.w - 1, a.w)
    return concat(ite(s, const(-1, w - a.w), const(0, w - a.w)), a)


def trunc(a, w):
    return extract(a, 0, w)


_ext_memo = {}


def extract(a, lo, hi):
    """bits lo..hi-1"""
    assert 0 <= lo < hi <= a.w, (lo, hi, a.w)
    if lo == 0 and hi == a.w:
        return a
    if a.op == "c" or a.op == "v":
        return _extract(a, lo, hi)
    k = (a.id, lo, hi)
    r = _ext_memo.get(k)
    if r is None:
        r = _ext_memo[k] = _extract(a, lo, hi)
    return r


def _extract(a, lo, hi):
    op = a.op
    if op == "c":
        return const(a.p >> lo, hi - lo)
    if op == "ext":
        return extract(a.a[0], a.p[0] + lo, a.p[0] + hi)
    if op == "concat":
        parts = []
        sh = a.w
        for x in a.a:
            sh -= x.w
            l, h = max(lo, sh), min(hi, sh + x.w)
            if l < h:
                parts.append(extract(x, l - sh, h - sh))
        return concat(*parts)
    if op == "zext":
        x = a.a[0]
        if hi <= x.w:
            return extract(x, lo, hi)
        if lo >= x.w:
            return const(0, hi - lo)
        return zext(extract(x, lo, x.w), hi - lo)
    if op == "ite":
        return ite(a.a[0], extract(a.a[1], lo, hi), extract(a.a[2], lo, hi))
    if op in ("and", "or", "xor"):
        f = {"and": and_, "or": or_, "xor": xor_}[op]
        return f(extract(a.a[0], lo, hi), extract(a.a[1], lo, hi))
    if op == "not":
        return not_(extract(a.a[0], lo, hi))
    return _mk("ext", hi - lo, (a,), (lo, hi))


def update(a, lo, hi, v):
    """a with bits lo..hi-1 replaced by v"""
    assert v.w == hi - lo
    parts = []
    if hi < a.w:
        parts.append(extract(a, hi, a.w))
    parts.append(v)
    if lo > 0:
        parts.append(extract(a, 0, lo))
    return concat(*parts)


def bit(a, i):
    return extract(a, i, i + 1)


def nonzero(a):
    return ne(a, const(0, a.w)) if a.w > 1 else a


_BUILD = {
    "not": lambda t, a: not_(a[0]),
    "and": lambda t, a: and_(a[0], a[1]),
    "or": lambda t, a: or_(a[0], a[1]),
    "xor": lambda t, a: xor_(a[0], a[1]),
    "eq": lambda t, a: eq(a[0], a[1]),
    "ult": lambda t, a: ult(a[0], a[1]),
    "add": lambda t, a: add(a[0], a[1]),
    "sub": lambda t, a: sub(a[0], a[1]),
    "mul": lambda t, a: mul(a[0], a[1]),
    "udiv": lambda t, a: udiv(a[0], a[1]),
    "urem": lambda t, a: urem(a[0], a[1]),
    "shl": lambda t, a: shl(a[0], a[1]),
    "lshr": lambda t, a: lshr(a[0], a[1]),
    "ite": lambda t, a: ite(a[0], a[1], a[2]),
    "concat": lambda t, a: concat(*a),
    "zext": lambda t, a: zext(a[0], t.w),
    "ext": lambda t, a: extract(a[0], t.p[0], t.p[1]),
}


def rebuild(t, args):
    return _BUILD[t.op](t, args)


def topo(roots):
    """All distinct subterms, arguments first."""
    seen, order = set(), []
    stack = [(r, False) for r in roots]
    while stack:
        t, done = stack.pop()
        if done:
            order.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for x in t.a:
            if x.id not in seen:
                stack.append((x, False))
    return order


def subst(t, m, cache=None):
    """Replace variables: m maps variable *names* to terms."""
    cache = {} if cache is None else cache
    if t.id in cache:
        return cache[t.id]
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if x.id in cache:
            continue
        if x.op == "c":
            cache[x.id] = x
        elif x.op == "v":
            r = m.get(x.p, x)
            assert r.w == x.w, (x.p, r.w, x.w)
            cache[x.id] = r
        elif done:
            cache[x.id] = rebuild(x, [cache[y.id] for y in x.a])
        else:
            stack.append((x, True))
            for y in x.a:
                if y.id not in cache:
                    stack.append((y, False))
    return cache[t.id]


def variables(*roots):
    return {x.p: x for x in topo(roots) if x.op == "v"}


def evaluate(roots, env, default=None):
    """Concrete value of each root; env maps variable names to ints."""
    val = {}
    for t in topo(roots):
        op, a, w = t.op, t.a, t.w
        M = (1 << w) - 1
        if op == "c":
            r = t.p
        elif op == "v":
            r = env[t.p] if default is None else env.get(t.p, default)
        elif op == "not":
            r = ~val[a[0].id] & M
        elif op == "and":
            r = val[a[0].id] & val[a[1].id]
        elif op == "or":
            r = val[a[0].id] | val[a[1].id]
        elif op == "xor":
            r = val[a[0].id] ^ val[a[1].id]
        elif op == "eq":
            r = int(val[a[0].id] == val[a[1].id])
        elif op == "ult":
            r = int(val[a[0].id] < val[a[1].id])
        elif op == "add":
            r = (val[a[0].id] + val[a[1].id]) & M
        elif op == "sub":
            r = (val[a[0].id] - val[a[1].id]) & M
        elif op == "mul":
            r = (val[a[0].id] * val[a[1].id]) & M
        elif op == "udiv":
            d = val[a[1].id]
            r = val[a[0].id] // d if d else M
        elif op == "urem":
            d = val[a[1].id]
            r = val[a[0].id] % d if d else val[a[0].id]
        elif op == "shl":
            n = val[a[1].id]
            r = (val[a[0].id] << n) & M if n < w else 0
        elif op == "lshr":
            n = val[a[1].id]
            r = val[a[0].id] >> n if n < w else 0
        elif op == "ite":
            r = val[a[1].id] if val[a[0].id] else val[a[2].id]
        elif op == "concat":
            r = 0
            for x in a:
                r = (r << x.w) | val[x.id]
        elif op == "zext":
            r = val[a[0].id]
        elif op == "ext":
            r = (val[a[0].id] >> t.p[0]) & M
        else:
            raise AssertionError(op)
        val[t.id] = r
    return [val[r.id] for r in roots]


def show(t, depth=6):
    if t.op == "c":
        return f"{t.p}'{t.w}" if t.w > 1 else str(t.p)
    if t.op == "v":
        return str(t.p)
    if depth == 0:
        return "..."
    s = ", ".join(show(x, depth - 1) for x in t.a)
    if t.op == "ext":
        return f"{s}[{t.p[0]}:{t.p[1]}]"
    return f"{t.op}({s})"


# ---------------------------------------------------------------- SMT export

def to_z3(roots, ctx=None):
    import z3
    val, decls = {}, {}
    one = {}

    def b2bv(e):
        return z3.If(e, z3.BitVecVal(1, 1, ctx), z3.BitVecVal(0, 1, ctx))

    # 1-bit terms are kept as z3 Bools; wider ones as bit vectors.
    def as_bv(t):
        v = val[t.id]
        return b2bv(v) if t.w == 1 else v

    for t in topo(roots):
        op, a, w = t.op, t.a, t.w
        if op == "c":
            r = z3.BoolVal(bool(t.p), ctx) if w == 1 else z3.BitVecVal(t.p, w, ctx)
        elif op == "v":
            r = z3.Bool(str(t.p), ctx) if w == 1 else z3.BitVec(str(t.p), w, ctx)
            decls[t.p] = (r, w)
        elif op == "not":
            r = z3.Not(val[a[0].id]) if w == 1 else ~val[a[0].id]
        elif op in ("and", "or", "xor"):
            x, y = val[a[0].id], val[a[1].id]
            if w == 1:
                r = {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](x, y)
            else:
                r = x & y if op == "and" else x | y if op == "or" else x ^ y
        elif op == "eq":
            r = val[a[0].id] == val[a[1].id]
        elif op == "ult":
            r = z3.ULT(val[a[0].id], val[a[1].id])
        elif op == "ite":
            r = z3.If(val[a[0].id], val[a[1].id], val[a[2].id])
        elif op == "concat":
            r = z3.Concat(*[as_bv(x) for x in a])
        elif op == "zext":
            r = z3.ZeroExt(w - a[0].w, as_bv(a[0]))
        elif op == "ext":
            r = z3.Extract(t.p[1] - 1, t.p[0], val[a[0].id])
            if w == 1:
                r = r == z3.BitVecVal(1, 1, ctx)
        else:
            x, y = as_bv(a[0]), as_bv(a[1])
            r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y,
                 "udiv": lambda: z3.UDiv(x, y), "urem": lambda: z3.URem(x, y),
                 "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y)}[op]()
            if w == 1:
                r = r == z3.BitVecVal(1, 1, ctx)
        val[t.id] = r
    return [val[r.id] for r in roots], decls


def to_smt2(assertions):
    """SMT-LIB text asserting each 1-bit term (for command-line solvers)."""
    out = ["(set-logic QF_BV)"]
    name = {}

    def nm(t):
        return name[t.id]

    k = 0
    for t in topo(assertions):
        op, a, w = t.op, t.a, t.w
        if op == "c":
            name[t.id] = "#b" + format(t.p, f"0{w}b")
            continue
        if op == "v":
            n = "|" + str(t.p).replace("|", "!").replace("\\", "!") + "|"
            out.append(f"(declare-const {n} (_ BitVec {w}))")
            name[t.id] = n
            continue
        s = [nm(x) for x in a]
        if op in ("and", "or", "xor", "add", "sub", "mul", "udiv", "urem", "shl", "lshr"):
            e = f"(bv{op} {s[0]} {s[1]})"
        elif op == "not":
            e = f"(bvnot {s[0]})"
        elif op == "eq":
            e = f"(ite (= {s[0]} {s[1]}) #b1 #b0)"
        elif op == "ult":
            e = f"(ite (bvult {s[0]} {s[1]}) #b1 #b0)"
        elif op == "ite":
            e = f"(ite (= {s[0]} #b1) {s[1]} {s[2]})"
        elif op == "concat":
            e = s[0]
            for x in s[1:]:
                e = f"(concat {e} {x})"
        elif op == "zext":
            e = f"((_ zero_extend {w - a[0].w}) {s[0]})"
        elif op == "ext":
            e = f"((_ extract {t.p[1]-1} {t.p[0]}) {s[0]})"
        n = f"t{k}"
        k += 1
        out.append(f"(define-fun {n} () (_ BitVec {w}) {e})")
        name[t.id] = n
    for t in assertions:
        out.append(f"(assert (= {nm(t)} #b1))")
    return "\n".join(out) + "\n(check-sat)\n"
