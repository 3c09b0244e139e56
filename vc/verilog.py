"""A front end for the synthesizable SystemVerilog that PyMTL3 emits and that
the SRAM wrapper is written in: parser, elaboration (parameters, generate-if),
and symbolic execution of always blocks into terms.

Two-valued semantics; expression widths follow IEEE 1800 clause 11 (context-
determined operands take the width of the context).  An index outside its
vector or array gives an unconstrained value; a write outside is ignored.
Anything not understood raises Unsupported."""
import re

from . import term as tm


class Unsupported(Exception):
    pass


TOKEN = re.compile(r"""
    (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
  | (?P<num>(?:\d[\d_]*)?\s*'s?[bBoOdDhH]\s*[0-9a-fA-F_xXzZ?]+|'[01]|\d[\d_]*)
  | (?P<id>\$?[A-Za-z_][A-Za-z0-9_$]*)
  | (?P<op><<<|>>>|===|!==|<=|>=|==|!=|&&|\|\||<<|>>|\*\*|\+:|-:|\+\+|--|\+=|-=|~\^|\^~|~&|~\||'\{|[-+*/%&|^~!<>=?:;,.(){}\[\]@\#'])
""", re.X | re.S)

KEY = {"module", "endmodule", "begin", "end", "if", "else", "for", "assign", "always_comb", "always_ff",
       "always", "always_latch", "case", "endcase", "unique", "priority", "default", "typedef", "struct", "packed",
       "localparam", "parameter", "logic", "wire", "reg", "int", "integer", "unsigned", "signed", "input",
       "output", "inout", "generate", "endgenerate", "genvar", "initial", "function", "posedge", "negedge", "bit"}


def lex(text):
    out, i, n = [], 0, len(text)
    while i < n:
        if text[i] == "`":
            j = text.find("\n", i)
            j = n if j < 0 else j
            w = text[i + 1:j].split()[:1]
            if w and w[0] in ("timescale", "default_nettype", "resetall"):
                i = j
                continue
            raise Unsupported(f"directive {text[i:j]}")
        m = TOKEN.match(text, i)
        if not m:
            raise Unsupported(f"character {text[i]!r}")
        i = m.end()
        if m.lastgroup != "ws":
            out.append((m.lastgroup, m.group()))
    out.append(("eof", ""))
    return out


# ----------------------------------------------------------------- types
class Vec:
    def __init__(self, w):
        self.w = w


class PArr:
    """packed array: n elements, the last one most significant"""

    def __init__(self, n, elem):
        self.n, self.elem, self.w = n, elem, n * elem.w


class Struct:
    def __init__(self, name, fields):
        self.name, self.fields = name, fields       # most significant first
        self.w = sum(t.w for _, t in fields)

    def field(self, name):
        hi = self.w
        for n, t in self.fields:
            if n == name:
                return hi - t.w, t
            hi -= t.w
        raise Unsupported(f"no field {name} in {self.name}")


# ----------------------------------------------------------------- parser
class Parser:
    def __init__(self, text):
        self.t = lex(text)
        self.i = 0
        self.structs = {}       # name -> [(field, typeexpr)]
        self.modules = {}
        self.source()

    def peek(self, k=0):
        return self.t[self.i + k][1]

    def kind(self, k=0):
        return self.t[self.i + k][0]

    def next(self):
        self.i += 1
        return self.t[self.i - 1][1]

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise Unsupported(f"expected {s!r}, found {' '.join(x[1] for x in self.t[self.i:self.i + 6])!r}")

    def ident(self):
        if self.kind() != "id" or self.peek() in KEY:
            raise Unsupported(f"identifier expected at {self.peek()!r}")
        return self.next()

    def source(self):
        while self.kind() != "eof":
            if self.accept(";"):
                continue
            if self.accept("typedef"):
                self.typedef()
            elif self.accept("module"):
                self.module()
            else:
                raise Unsupported(f"at top level: {self.peek()!r}")

    def typedef(self):
        self.expect("struct")
        self.expect("packed")
        self.expect("{")
        fs = []
        while not self.accept("}"):
            ty = self.type_()
            fs.append((self.ident(), ty))
            while self.accept(","):
                fs.append((self.ident(), ty))
            self.expect(";")
        n = self.ident()
        self.expect(";")
        if n in self.structs and repr(self.structs[n]) != repr(fs):
            raise Unsupported(f"struct {n} defined twice")
        self.structs[n] = fs

    def type_(self):
        """-> (base name or None, [(hi, lo)] packed dimensions)"""
        base = None
        if self.peek() in ("logic", "wire", "reg", "bit"):
            self.next()
            if self.peek() in ("logic", "reg"):
                self.next()
        elif self.peek() in ("int", "integer"):
            self.next()
            self.accept("unsigned")
            return ("int", [])
        elif self.kind() == "id" and self.peek() not in KEY and self.kind(1) == "id" and self.peek(1) not in KEY:
            base = self.next()
        if self.accept("signed"):
            raise Unsupported("signed")
        self.accept("unsigned")
        return (base, self.dims())

    def dims(self):
        d = []
        while self.accept("["):
            a = self.expr()
            if self.accept(":"):
                b = self.expr()
            else:
                b = None
            self.expect("]")
            d.append((a, b))
        return d

    def module(self):
        m = {"name": self.ident(), "params": [], "ports": [], "items": []}
        if self.accept("#"):
            self.expect("(")
            while not self.accept(")"):
                self.accept("parameter")
                ty = self.type_() if (self.peek() in ("int", "integer", "logic", "[")) else (None, [])
                n = self.ident()
                self.expect("=")
                m["params"].append((n, ty, self.expr()))
                self.accept(",")
        if self.accept("("):
            d, ty = None, None
            while not self.accept(")"):
                if self.peek() in ("input", "output", "inout"):
                    d = self.next()
                    ty = self.type_()
                elif d is None:
                    raise Unsupported("non-ANSI ports")
                n = self.ident()
                m["ports"].append((d, ty, n, self.dims()))
                self.accept(",")
        self.expect(";")
        while not self.accept("endmodule"):
            m["items"].append(self.item())
        if m["name"] in self.modules:
            raise Unsupported(f"module {m['name']} defined twice")
        self.modules[m["name"]] = m

    def item(self):
        p = self.peek()
        if p == ";":
            self.next()
            return ("block", [])
        if p in ("localparam", "parameter"):
            self.next()
            ty = (None, []) if self.kind(1) == "op" and self.peek(1) == "=" else self.type_()
            n = self.ident()
            un = self.dims()
            self.expect("=")
            e = self.expr()
            self.expect(";")
            return ("param", n, ty, un, e)
        if p == "assign":
            self.next()
            lhs = self.expr()
            self.expect("=")
            e = self.expr()
            self.expect(";")
            return ("assign", lhs, e)
        if p == "always_comb":
            self.next()
            return ("comb", self.stmt())
        if p == "always_ff" or p == "always":
            self.next()
            self.expect("@")
            if self.accept("*"):
                return ("comb", self.stmt())
            self.expect("(")
            if self.accept("*"):
                self.expect(")")
                return ("comb", self.stmt())
            self.expect("posedge")
            clk = self.ident()
            self.expect(")")
            return ("ff", clk, self.stmt())
        if p in ("generate",):
            self.next()
            xs = []
            while not self.accept("endgenerate"):
                xs.append(self.item())
            return ("block", xs)
        if p == "if":
            self.next()
            self.expect("(")
            c = self.expr()
            self.expect(")")
            a = self.gen_block()
            b = self.gen_block() if self.accept("else") else ("block", [])
            return ("genif", c, a, b)
        if p in ("initial", "function", "for", "genvar", "always_latch"):
            raise Unsupported(p)
        if self.kind() == "id" and p not in KEY and (self.kind(1) == "id" and self.peek(1) not in KEY
                                                      and self.peek(2) == "(" or self.peek(1) == "#"):
            mod = self.ident()
            pars = []
            if self.accept("#"):
                pars = self.conns()
            inst = self.ident()
            c = self.conns()
            self.expect(";")
            return ("inst", mod, pars, inst, c)
        ty = self.type_()
        ds = []
        while True:
            n = self.ident()
            un = self.dims()
            init = self.expr() if self.accept("=") else None
            ds.append((n, un, init))
            if not self.accept(","):
                break
        self.expect(";")
        return ("decl", ty, ds)

    def gen_block(self):
        if self.accept("begin"):
            if self.accept(":"):
                self.ident()
            xs = []
            while not self.accept("end"):
                xs.append(self.item())
            return ("block", xs)
        return self.item()

    def conns(self):
        self.expect("(")
        c = []
        while not self.accept(")"):
            self.expect(".")
            n = self.ident()
            self.expect("(")
            e = None if self.peek() == ")" else self.expr()
            self.expect(")")
            c.append((n, e))
            self.accept(",")
        return c

    # statements
    def stmt(self):
        p = self.peek()
        if p == ";":
            self.next()
            return ("seq", [])
        if p == "begin":
            self.next()
            if self.accept(":"):
                self.ident()
            xs = []
            while not self.accept("end"):
                xs.append(self.stmt())
            if self.accept(":"):
                self.ident()
            return ("seq", xs)
        if p in ("unique", "priority"):
            self.next()
            return self.stmt()
        if p == "if":
            self.next()
            self.expect("(")
            c = self.expr()
            self.expect(")")
            a = self.stmt()
            b = self.stmt() if self.accept("else") else ("seq", [])
            return ("if", c, a, b)
        if p == "case":
            self.next()
            self.expect("(")
            e = self.expr()
            self.expect(")")
            arms, dflt = [], ("seq", [])
            while not self.accept("endcase"):
                if self.accept("default"):
                    self.accept(":")
                    dflt = self.stmt()
                    continue
                ls = [self.expr()]
                while self.accept(","):
                    ls.append(self.expr())
                self.expect(":")
                arms.append((ls, self.stmt()))
            s = dflt
            for ls, b in reversed(arms):
                c = None
                for x in ls:
                    q = ("bin", "==", e, x)
                    c = q if c is None else ("bin", "||", c, q)
                s = ("if", c, b, s)
            return s
        if p == "for":
            self.next()
            self.expect("(")
            if self.peek() in ("int", "integer"):
                self.next()
                self.accept("unsigned")
            v = self.ident()
            self.expect("=")
            i = self.expr()
            self.expect(";")
            c = self.expr()
            self.expect(";")
            st = self.step()
            self.expect(")")
            return ("for", v, i, c, st, self.stmt())
        if p in ("logic", "int", "reg"):
            ty = self.type_()
            n = self.ident()
            init = self.expr() if self.accept("=") else None
            self.expect(";")
            return ("local", ty, n, init)
        lhs = self.lvalue()
        op = self.next()
        if op not in ("=", "<=", "+=", "-="):
            raise Unsupported(f"statement at {op!r}")
        e = self.expr()
        self.expect(";")
        if op in ("+=", "-="):
            return ("asg", "=", lhs, ("bin", op[0], lhs, e))
        return ("asg", op, lhs, e)

    def step(self):
        v = self.ident()
        op = self.next()
        if op == "++":
            return (v, ("bin", "+", ("id", v), ("num", 1, 32)))
        if op == "--":
            return (v, ("bin", "-", ("id", v), ("num", 1, 32)))
        if op in ("+=", "-="):
            return (v, ("bin", op[0], ("id", v), self.expr()))
        if op == "=":
            return (v, self.expr())
        raise Unsupported(f"loop step {op}")

    def lvalue(self):
        if self.peek() == "{":
            return self.primary()
        return self.postfix(("id", self.ident()))

    # expressions
    PREC = [["||"], ["&&"], ["|"], ["^", "~^", "^~"], ["&"], ["==", "!=", "===", "!=="],
            ["<", "<=", ">", ">="], ["<<", ">>", "<<<", ">>>"], ["+", "-"], ["*", "/", "%"], ["**"]]

    def expr(self):
        c = self.binary(0)
        if self.accept("?"):
            a = self.expr()
            self.expect(":")
            return ("cond", c, a, self.expr())
        return c

    def binary(self, lv):
        if lv == len(self.PREC):
            return self.unary()
        a = self.binary(lv + 1)
        while self.kind() == "op" and self.peek() in self.PREC[lv]:
            op = self.next()
            a = ("bin", op, a, self.binary(lv + 1))
        return a

    def unary(self):
        if self.kind() == "op" and self.peek() in ("~", "!", "-", "+", "&", "|", "^", "~&", "~|", "~^"):
            op = self.next()
            return ("un", op, self.unary())
        return self.postfix(self.primary())

    def postfix(self, e):
        while True:
            if self.accept("["):
                a = self.expr()
                if self.accept(":"):
                    e = ("part", e, a, self.expr())
                elif self.accept("+:"):
                    e = ("partup", e, a, self.expr())
                else:
                    if self.peek() == "-:":
                        raise Unsupported("-:")
                    e = ("idx", e, a)
                self.expect("]")
            elif self.peek() == "." and self.kind(1) == "id":
                self.next()
                e = ("fld", e, self.next())
            else:
                return e

    def primary(self):
        k, s = self.t[self.i]
        if k == "num":
            self.i += 1
            e = number(s)
            if self.peek() == "'" and self.peek(1) == "(":      # cast
                self.i += 2
                x = self.expr()
                self.expect(")")
                return ("cast", e, x)
            return e
        if s == "(":
            self.i += 1
            e = self.expr()
            self.expect(")")
            return e
        if s == "{":
            self.i += 1
            a = self.expr()
            if self.accept("{"):
                xs = [self.expr()]
                while self.accept(","):
                    xs.append(self.expr())
                self.expect("}")
                self.expect("}")
                return ("rep", a, ("cat", xs))
            xs = [a]
            while self.accept(","):
                xs.append(self.expr())
            self.expect("}")
            return ("cat", xs)
        if s == "'{":
            self.i += 1
            xs = [self.expr()]
            while self.accept(","):
                xs.append(self.expr())
            self.expect("}")
            return ("pat", xs)
        if s == "$clog2":
            self.i += 1
            self.expect("(")
            e = self.expr()
            self.expect(")")
            return ("clog2", e)
        if k == "id" and s not in KEY:
            self.i += 1
            if s.startswith("$"):
                raise Unsupported(s)
            if self.peek() == "'" and self.peek(1) == "(":
                self.i += 2
                x = self.expr()
                self.expect(")")
                return ("tcast", s, x)
            return ("id", s)
        raise Unsupported(f"expression at {s!r}")


def number(s):
    s = s.replace("_", "").replace(" ", "").replace("\n", "")
    if "'" not in s:
        return ("num", int(s), 32)
    w, v = s.split("'")
    if v in ("0", "1"):
        return ("fill", int(v))
    if v[0] in "sS":
        raise Unsupported("signed literal")
    if re.search("[xXzZ?]", v[1:]):
        raise Unsupported(f"literal {s}")
    n = int(v[1:], {"b": 2, "o": 8, "d": 10, "h": 16}[v[0].lower()])
    wd = int(w) if w else 32
    return ("num", n & ((1 << wd) - 1), wd)


# ----------------------------------------------------------------- elaboration
class Sig:
    def __init__(self, name, type_, dims, direction=None):
        self.name, self.type, self.dims, self.dir = name, type_, dims, direction

    def elems(self):
        out = [()]
        for n in self.dims:
            out = [x + (i,) for x in out for i in range(n)]
        return out


class Inst:
    """one elaborated module"""

    def __init__(self, vl, mod, params, path, black=()):
        self.vl, self.mod, self.path = vl, mod, path
        self.params = {}            # name -> ("val", term) | ("list", [...])
        self.sigs = {}
        self.assigns = []
        self.procs = []             # (kind, stmt, index)
        self.kids = {}
        self.conn = {}
        m = vl.modules[mod]
        for n, ty, e in m["params"]:
            if n in params:
                self.params[n] = params[n]
            else:
                self.params[n] = self.const(e, self.type(ty) if ty[1] else None)
        for d, ty, n, un in m["ports"]:
            self.sigs[n] = Sig(n, self.type(ty), self.undims(un), d)
        self.black = mod in black
        if not self.black:
            self.items(m["items"], black)

    def const(self, e, ty=None):
        if e[0] == "pat":
            return [self.const(x, ty) for x in e[1]]
        x = Ex(self, {}, None)
        w = ty.w if ty is not None else max(x.size(e), 1)
        t = x.ev(e, w)
        if t.op != "c":
            raise Unsupported(f"parameter of {self.mod} is not constant")
        return t

    def int_(self, e):
        return self.const(e).p

    def type(self, ty):
        base, dims = ty
        if base == "int":
            return Vec(32)
        if base is None:
            t = Vec(1)
            if dims:
                a, b = dims[-1]
                hi, lo = self.int_(a), self.int_(b)
                if lo != 0:
                    raise Unsupported("vector not ending at 0")
                t = Vec(hi + 1)
                dims = dims[:-1]
        else:
            if base not in self.vl.structs:
                raise Unsupported(f"type {base}")
            t = Struct(base, [(n, self.type(x)) for n, x in self.vl.structs[base]])
        for a, b in reversed(dims):
            t = PArr(self.int_(a) + 1, t)
        return t

    def undims(self, un):
        out = []
        for a, b in un:
            if b is None:
                out.append(self.int_(a))
            else:
                x, y = self.int_(a), self.int_(b)
                if min(x, y) != 0:
                    raise Unsupported("array range")
                out.append(max(x, y) + 1)
        return out

    def items(self, its, black):
        for it in its:
            k = it[0]
            if k == "block":
                self.items(it[1], black)
            elif k == "param":
                _, n, ty, un, e = it
                self.params[n] = self.const(e, self.type(ty) if (ty[1] or ty[0]) else None)
            elif k == "decl":
                for n, un, init in it[2]:
                    if n in self.sigs:
                        raise Unsupported(f"{n} declared twice")
                    self.sigs[n] = Sig(n, self.type(it[1]), self.undims(un))
                    if init is not None:
                        self.assigns.append((("id", n), init))
            elif k == "assign":
                self.assigns.append((it[1], it[2]))
            elif k == "comb":
                self.procs.append(("comb", it[1]))
            elif k == "ff":
                if it[1].lower() != "clk":
                    raise Unsupported(f"clock {it[1]}")
                self.procs.append(("ff", it[2]))
            elif k == "genif":
                c = self.const(it[1])
                self.items([it[2] if c.p else it[3]], black)
            elif k == "inst":
                _, mod, pars, name, conns = it
                if mod not in self.vl.modules:
                    self.kids[name] = None
                    self.conn[name] = (mod, conns)
                    continue
                ps = {n: self.const(e) for n, e in pars}
                kid = Inst(self.vl, mod, ps, self.path + (name,), black)
                if name in self.kids:
                    raise Unsupported(f"instance {name} twice")
                self.kids[name] = kid
                self.conn[name] = (mod, conns)
            else:
                raise Unsupported(k)


class Ex:
    """Expression evaluation in a module instance.
    env: local variables; read(sig, idx, lo, hi) -> term gives signals"""

    def __init__(self, inst, env, read, fresh=None):
        self.i, self.env, self.read = inst, env, read
        self.fresh = fresh

    # --- references: (kind, ...)
    def ref(self, e):
        """-> (sig, [idx terms], lo term or int, type) or None"""
        if e[0] == "id":
            if e[1] in self.env or e[1] in self.i.params:
                return None
            s = self.i.sigs.get(e[1])
            if s is None:
                raise Unsupported(f"{e[1]} in {self.i.mod}")
            return (s, [], 0, s.type, False)
        if e[0] not in ("idx", "part", "partup", "fld"):
            return None
        r = self.ref(e[1])
        if r is None:
            return None
        s, ix, lo, ty, vec = r
        if e[0] == "idx":
            if len(ix) < len(s.dims):
                return (s, ix + [self.ev(e[2])], lo, ty, vec)
            el = ty.elem if isinstance(ty, PArr) else Vec(1)
            t = self.ev(e[2])
            if t.op == "c":
                if t.p >= ty.w // el.w:
                    raise Unsupported(f"constant index out of range in {self.i.mod}")
                return (s, ix, self.addlo(lo, t.p * el.w), el, vec)
            return (s, ix, self.dynlo(lo, t, el.w, ty.w // el.w), el, vec)
        if len(ix) < len(s.dims):
            raise Unsupported("slice of an array")
        if e[0] == "fld":
            if not isinstance(ty, Struct):
                raise Unsupported(f"field {e[2]} of a vector")
            o, t = ty.field(e[2])
            return (s, ix, self.addlo(lo, o), t, vec)
        if isinstance(ty, PArr):
            raise Unsupported("slice of a packed array")
        if e[0] == "part":
            hi, l = self.i.int_(e[2]) if not self.dyn(e[2]) else self.cev(e[2]), \
                self.i.int_(e[3]) if not self.dyn(e[3]) else self.cev(e[3])
            if not 0 <= l <= hi < ty.w:
                raise Unsupported(f"slice out of range in {self.i.mod}")
            return (s, ix, self.addlo(lo, l), Vec(hi - l + 1), vec)
        w = self.cev(e[3])
        t = self.ev(e[2])
        if t.op == "c":
            if t.p + w > ty.w:
                raise Unsupported("slice out of range")
            return (s, ix, self.addlo(lo, t.p), Vec(w), vec)
        return (s, ix, self.dynlo(lo, t, 1, ty.w - w + 1), Vec(w), vec)

    def dyn(self, e):
        return True

    def cev(self, e):
        t = self.ev(e)
        if t.op != "c":
            raise Unsupported("slice bounds not constant")
        return t.p

    @staticmethod
    def addlo(lo, n):
        if isinstance(lo, int):
            return lo + n
        return (lo[0], lo[1], lo[2], lo[3] + n)

    @staticmethod
    def dynlo(lo, t, scale, n):
        if not isinstance(lo, int):
            raise Unsupported("two dynamic packed indices")
        return (t, scale, n, lo)        # position lo + scale*t, valid if t < n

    def size(self, e):
        k = e[0]
        if k == "num":
            return e[2]
        if k == "fill":
            return 1
        if k == "id":
            if e[1] in self.env:
                return self.env[e[1]].w
            if e[1] in self.i.params:
                p = self.i.params[e[1]]
                if isinstance(p, list):
                    raise Unsupported("array parameter without index")
                return p.w
        if k in ("id", "idx", "part", "partup", "fld"):
            r = self.ref(e)
            if r is None:
                return self.other(e).w
            if len(r[1]) != len(r[0].dims):
                raise Unsupported("whole array in an expression")
            return r[3].w
        if k == "cond":
            return max(self.size(e[2]), self.size(e[3]))
        if k == "un":
            return self.size(e[2]) if e[1] in ("~", "-", "+") else 1
        if k == "bin":
            if e[1] in ("==", "!=", "===", "!==", "<", "<=", ">", ">=", "&&", "||"):
                return 1
            if e[1] in ("<<", ">>", "<<<", ">>>", "**"):
                return self.size(e[2])
            return max(self.size(e[2]), self.size(e[3]))
        if k == "cat":
            return sum(self.size(x) for x in e[1])
        if k == "rep":
            return self.i.int_(e[1]) * self.size(e[2])
        if k == "cast":
            return e[1][1]
        if k == "tcast":
            return self.i.type((e[1], [])).w
        if k == "clog2":
            return 32
        raise Unsupported(k)

    def other(self, e):
        """selects on parameters and locals"""
        if e[0] == "id":
            return self.env[e[1]] if e[1] in self.env else self.i.params[e[1]]
        if e[0] == "idx":
            b = self.other(e[1])
            t = self.ev(e[2])
            if isinstance(b, list):
                if t.op == "c":
                    return b[t.p]
                r = b[-1]
                for k in range(len(b) - 2, -1, -1):
                    r = tm.ite(tm.eq(t, tm.const(k, t.w)), b[k], r)
                return r
            if t.op != "c":
                return tm.extract(tm.lshr(b, tm.zext(t, b.w)) if t.w <= b.w else self.bad("index"), 0, 1)
            return tm.extract(b, t.p, t.p + 1)
        if e[0] == "part":
            b = self.other(e[1])
            return tm.extract(b, self.cev(e[3]), self.cev(e[2]) + 1)
        raise Unsupported(f"{e[0]} of a constant")

    def bad(self, what):
        raise Unsupported(what)

    def ev(self, e, w=None):
        """value of e in a context of width w (None: self-determined)"""
        if w is None:
            w = self.size(e)
        k = e[0]
        if k == "num":
            return tm.const(e[1] & ((1 << w) - 1), w) if e[2] >= w else tm.const(e[1], w)
        if k == "fill":
            return tm.const(((1 << w) - 1) if e[1] else 0, w)
        if k in ("id", "idx", "part", "partup", "fld"):
            r = self.ref(e)
            t = self.other(e) if r is None else self.load(r)
            return fit(t, w)
        if k == "cond":
            c = tm.nonzero(self.ev(e[1]))
            return tm.ite(c, self.ev(e[2], w), self.ev(e[3], w))
        if k == "un":
            op = e[1]
            if op == "~":
                return tm.not_(self.ev(e[2], w))
            if op == "-":
                return tm.sub(tm.const(0, w), self.ev(e[2], w))
            if op == "+":
                return self.ev(e[2], w)
            x = self.ev(e[2])
            if op == "!":
                r = tm.not_(tm.nonzero(x))
            elif op in ("|", "~|"):
                r = tm.nonzero(x)
            elif op in ("&", "~&"):
                r = tm.eq(x, tm.const((1 << x.w) - 1, x.w))
            else:
                r = tm.extract(x, 0, 1)
                for j in range(1, x.w):
                    r = tm.xor_(r, tm.extract(x, j, j + 1))
            if op in ("~|", "~&", "~^"):
                r = tm.not_(r)
            return fit(r, w)
        if k == "bin":
            op = e[1]
            if op in ("&&", "||"):
                a, b = tm.nonzero(self.ev(e[2])), tm.nonzero(self.ev(e[3]))
                return fit(tm.and_(a, b) if op == "&&" else tm.or_(a, b), w)
            if op in ("==", "!=", "===", "!==", "<", "<=", ">", ">="):
                n = max(self.size(e[2]), self.size(e[3]))
                a, b = self.ev(e[2], n), self.ev(e[3], n)
                r = {"==": lambda: tm.eq(a, b), "===": lambda: tm.eq(a, b), "!=": lambda: tm.ne(a, b),
                     "!==": lambda: tm.ne(a, b), "<": lambda: tm.ult(a, b), "<=": lambda: tm.ule(a, b),
                     ">": lambda: tm.ult(b, a), ">=": lambda: tm.ule(b, a)}[op]()
                return fit(r, w)
            if op in ("<<", ">>", "<<<", ">>>"):
                a, b = self.ev(e[2], w), self.ev(e[3])
                n = max(a.w, b.w)
                f = tm.shl if op in ("<<", "<<<") else tm.lshr      # unsigned: >>> is >>
                return tm.trunc(f(fit(a, n), fit(b, n)), w) if n > w else f(a, fit(b, n))
            if op == "**":
                a, b = self.ev(e[2], w), self.ev(e[3])
                if a.op != "c" or b.op != "c":
                    raise Unsupported("**")
                return tm.const(pow(a.p, b.p, 1 << w), w)
            a, b = self.ev(e[2], w), self.ev(e[3], w)
            if op in ("/", "%"):
                if b.op != "c" or b.p == 0:
                    raise Unsupported("division by a variable")
                return tm.udiv(a, b) if op == "/" else tm.urem(a, b)
            f = {"+": tm.add, "-": tm.sub, "*": tm.mul, "&": tm.and_, "|": tm.or_, "^": tm.xor_}.get(op)
            if f is None:
                if op in ("~^", "^~"):
                    return tm.not_(tm.xor_(a, b))
                raise Unsupported(op)
            return f(a, b)
        if k == "cat":
            return fit(tm.concat(*[self.ev(x) for x in e[1]]), w)
        if k == "rep":
            x = self.ev(e[2])
            return fit(tm.concat(*([x] * self.i.int_(e[1]))), w)
        if k == "cast":
            if e[1][0] != "num":
                raise Unsupported("cast")
            return fit(self.assigned(e[2], e[1][1]), w)
        if k == "tcast":
            return fit(self.assigned(e[2], self.i.type((e[1], [])).w), w)
        if k == "clog2":
            n = self.ev(e[1])
            if n.op != "c":
                raise Unsupported("$clog2")
            return tm.const(max(0, (n.p - 1).bit_length()), w)
        raise Unsupported(k)

    def assigned(self, e, w):
        """what a variable of w bits holds after being assigned e (also the
        meaning of a cast, 1800-2017 6.24.1, as Verilator implements it)"""
        return fit(self.ev(e, max(w, self.size(e))), w)

    def load(self, r):
        s, ix, lo, ty, _ = r
        if len(ix) != len(s.dims):
            raise Unsupported("whole array in an expression")

        def at(idx):
            if isinstance(lo, int):
                return self.read(s, idx, lo, lo + ty.w)
            t, scale, n, base = lo
            full = self.read(s, idx, base, s.type.w)
            # pick one of n positions
            top = min(n, 1 << t.w)
            if top > 64 and scale == 1 and ty.w == 1:
                q = tm.zext(t, full.w) if t.w < full.w else t
                if t.w > full.w:
                    raise Unsupported("wide index")
                v = tm.extract(tm.lshr(full, q), 0, 1)
            else:
                v = tm.extract(full, (top - 1) * scale, (top - 1) * scale + ty.w)
                for j in range(top - 2, -1, -1):
                    v = tm.ite(tm.eq(t, tm.const(j, t.w)), tm.extract(full, j * scale, j * scale + ty.w), v)
            if n < (1 << t.w):
                v = tm.ite(tm.ult(t, tm.const(n, t.w)), v, self.x(ty.w))
            return v

        def dim(k, idx):
            if k == len(ix):
                return at(idx)
            t, n = ix[k], s.dims[k]
            if t.op == "c":
                if t.p >= n:
                    return self.x(ty.w)
                return dim(k + 1, idx + (t.p,))
            top = min(n, 1 << t.w)
            v = dim(k + 1, idx + (top - 1,))
            for j in range(top - 2, -1, -1):
                v = tm.ite(tm.eq(t, tm.const(j, t.w)), dim(k + 1, idx + (j,)), v)
            if n < (1 << t.w):
                v = tm.ite(tm.ult(t, tm.const(n, t.w)), v, self.x(ty.w))
            return v
        return dim(0, ())

    def x(self, w):
        if self.fresh is None:
            raise Unsupported("index out of range")
        return self.fresh(w)


def fit(t, w):
    return t if t.w == w else tm.zext(t, w) if t.w < w else tm.extract(t, 0, w)


# ----------------------------------------------------------------- processes
class Proc:
    """Symbolic execution of one always block.
    init(sig, idx) -> term: a signal's value before the block
    self.out[(name, idx)] -> (term, mask of bits the block may assign)"""

    def __init__(self, inst, stmt, ff, init, fresh, loops=1 << 16):
        self.i, self.ff, self.init, self.fresh = inst, ff, init, fresh
        self.base = {}
        self.cur = {}           # blocking values: key -> term or list of bit terms
        self.nxt = {}
        self.mask = {}
        self.left = loops
        self.run(stmt, {}, tm.TRUE)
        d = self.nxt if ff else self.cur
        self.out = {}
        for k, m in self.mask.items():
            v = d[k]
            self.out[k] = (tm.concat(*reversed(v)) if isinstance(v, list) else v, m)

    def first(self, s, idx):
        k = (s.name, idx)
        t = self.base.get(k)
        if t is None:
            t = self.base[k] = self.init(s, idx)
        return t

    def read(self, s, idx, lo, hi):
        v = self.cur.get((s.name, idx)) if not self.ff else None
        if v is None:
            v = self.first(s, idx)
        if isinstance(v, list):
            return v[lo] if hi - lo == 1 else tm.concat(*reversed(v[lo:hi]))
        return tm.extract(v, lo, hi)

    def ex(self, env):
        return Ex(self.i, env, self.read, self.fresh)

    # Guarded execution: every write is conditional on the path condition pc.
    # (cheaper than copying environments: most blocks are shallow)
    def run(self, st, env, pc):
        k = st[0]
        if k == "seq":
            for x in st[1]:
                if x[0] == "local":
                    env = dict(env)
                    ty = self.i.type(x[1])
                    if x[3] is None:
                        raise Unsupported("local without value")
                    t = fit(self.ex(env).ev(x[3]), ty.w)
                    if t.op != "c":
                        raise Unsupported("local variable")
                    env[x[2]] = t
                else:
                    self.run(x, env, pc)
        elif k == "if":
            c = tm.nonzero(self.ex(env).ev(st[1]))
            if c.op == "c":
                self.run(st[2] if c.p else st[3], env, pc)
                return
            self.run(st[2], env, tm.and_(pc, c))
            self.run(st[3], env, tm.and_(pc, tm.not_(c)))
        elif k == "for":
            _, v, i, c, (sv, se), body = st
            if sv != v:
                raise Unsupported("loop step")
            env = dict(env)
            env[v] = fit(self.ex(env).ev(i), 32)
            while True:
                t = tm.nonzero(self.ex(env).ev(c))
                if t.op != "c":
                    raise Unsupported("loop bound not constant")
                if not t.p:
                    break
                self.left -= 1
                if self.left < 0:
                    raise Unsupported("loop too long")
                self.run(body, env, pc)
                env = dict(env)
                env[v] = self.ex(env).ev(se, 32)
                if env[v].op != "c":
                    raise Unsupported("loop variable")
        elif k == "asg":
            _, op, lhs, rhs = st
            if op == "<=" and not self.ff:
                raise Unsupported("<= in a combinational block")
            x = self.ex(env)
            if lhs[0] == "cat":
                raise Unsupported("assignment to a concatenation")
            if lhs[0] == "id" and lhs[1] in env:
                raise Unsupported("assignment to a loop variable")
            r = x.ref(lhs)
            if r is None or len(r[1]) != len(r[0].dims):
                raise Unsupported("assignment target")
            if op == "=" and self.ff:
                raise Unsupported("= in a clocked block")
            w = r[3].w
            v = x.assigned(rhs, w)
            self.store(r, v, pc)
        else:
            raise Unsupported(k)

    def store(self, r, v, pc):
        s, ix, lo, ty, _ = r

        def dim(k, idx, c):
            if c is tm.FALSE:
                return
            if k == len(ix):
                return self.put(s, idx, lo, ty.w, v, c)
            t = ix[k]
            if t.op == "c":
                if t.p < s.dims[k]:
                    dim(k + 1, idx + (t.p,), c)
                return
            for j in range(min(s.dims[k], 1 << t.w)):
                dim(k + 1, idx + (j,), tm.and_(c, tm.eq(t, tm.const(j, t.w))))
        dim(0, (), pc)

    def put(self, s, idx, lo, w, v, c):
        key = (s.name, idx)
        d = self.nxt if self.ff else self.cur
        old = d.get(key)
        if old is None:
            old = self.first(s, idx)
        n = s.type.w
        if not isinstance(lo, int):
            t, scale, cnt, base = lo
            cur = old
            for j in range(min(cnt, 1 << t.w)):
                cur = self.put1(cur, n, base + j * scale, w, v, tm.and_(c, tm.eq(t, tm.const(j, t.w))))
                self.mask[key] = self.mask.get(key, 0) | (((1 << w) - 1) << (base + j * scale))
            d[key] = cur
            return
        d[key] = self.put1(old, n, lo, w, v, c)
        self.mask[key] = self.mask.get(key, 0) | (((1 << w) - 1) << lo)

    @staticmethod
    def put1(old, n, lo, w, v, c):
        if w == n:
            if isinstance(old, list):
                old = tm.concat(*reversed(old))
            return tm.ite(c, v, old)
        if w == 1 and n > 1:
            if not isinstance(old, list):
                old = [tm.extract(old, j, j + 1) for j in range(n)]
            else:
                old = list(old) if n <= 8 else old
            old[lo] = tm.ite(c, v, old[lo])
            return old
        if isinstance(old, list):
            old = tm.concat(*reversed(old))
        return tm.update(old, lo, lo + w, tm.ite(c, v, tm.extract(old, lo, lo + w)))


# ----------------------------------------------------------------- netlist
class Netlist:
    """All instances below a top module.  Signals assigned by always blocks are
    variables (name(inst, sig, idx) -> term); continuous assignments and port
    connections are followed."""

    def __init__(self, vl, top, var, black=(), params=None):
        self.vl, self.var = vl, var
        self.top = Inst(vl, top, params or {}, (), black)
        self.insts = {}
        self.drv = {}       # (path, name, idx) -> [(lo, hi, kind, payload)]
        self.def_ = {}      # (path, name, idx) -> (term, mask, "comb"|"ff")
        self.missing = []
        self.val = {}
        self.busy = set()
        self.nfresh = 0
        self._collect(self.top)
        for i in self.insts.values():
            self._drivers(i)

    def _collect(self, i):
        self.insts[i.path] = i
        for k in i.kids.values():
            if k is not None:
                self._collect(k)

    def fresh(self, w):
        self.nfresh += 1
        return tm.var(("x", self.nfresh), w)

    def add(self, key, lo, hi, kind, pay):
        d = self.drv.setdefault(key, [])
        for l, h, *_ in d:
            if l < hi and lo < h:
                raise Unsupported(f"two drivers of {'.'.join(key[0])}.{key[1]}")
        d.append((lo, hi, kind, pay))

    def _drivers(self, i):
        rd = self.reader(i)
        for lhs, rhs in i.assigns:
            self._drive_expr(i, lhs, ("expr", i, rhs), i)
        for name, kid in i.kids.items():
            mod, conns = i.conn[name]
            if kid is None:
                self.missing.append((i, name, mod))
                continue
            seen = set()
            for port, e in conns:
                s = kid.sigs.get(port)
                if s is None or s.dir is None:
                    raise Unsupported(f"port {port} of {mod}")
                seen.add(port)
                if s.dir == "input":
                    if e is None:
                        continue
                    self._drive_port(kid, s, i, e)
                elif e is not None:
                    self._drive_out(i, e, kid, s)
        # processes: which bits are assigned (run lazily is impossible: the
        # mask needs an execution)
        if i.black:
            return
        for n, (kind, st) in enumerate(i.procs):
            p = Proc(i, st, kind == "ff", self.initial(i), self.fresh)
            self.nproc = getattr(self, "nproc", 0) + 1
            for (name, idx), (t, mask) in p.out.items():
                key = (i.path, name, idx)
                for lo, hi in runs(mask):
                    self.add(key, lo, hi, kind, None)
                if key in self.def_:
                    t0, m0, k0 = self.def_[key]
                    if k0 != kind:
                        raise Unsupported(f"{name}: both comb and ff")
                    # merge: bits of mask from t
                    ps = []
                    for lo, hi in runs(mask):
                        t0 = tm.update(t0, lo, hi, tm.extract(t, lo, hi))
                    self.def_[key] = (t0, m0 | mask, kind)
                else:
                    self.def_[key] = (t, mask, kind)

    def initial(self, i):
        def f(s, idx):
            return self.raw(i.path, s, idx)
        return f

    def raw(self, path, s, idx):
        """placeholder resolved later"""
        return tm.var(("v", path, s.name, idx), s.type.w)

    def reader(self, i):
        def f(s, idx, lo, hi):
            return self.value(i.path, s, idx, lo, hi)
        return f

    def whole(self, i, e):
        """an expression that is a whole unpacked array (or a sub-array)"""
        x = Ex(i, {}, None)
        r = x.ref(e) if e[0] in ("id", "idx") else None
        if r and len(r[1]) < len(r[0].dims):
            if any(t.op != "c" for t in r[1]):
                raise Unsupported("array index")
            return r[0], tuple(t.p for t in r[1])
        return None

    def _drive_expr(self, i, lhs, pay, where):
        wh = self.whole(where, lhs)
        if wh:
            s, pre = wh
            src = self.whole(pay[1], pay[2])
            if not src:
                raise Unsupported("array assignment")
            s2, pre2 = src
            d, d2 = s.dims[len(pre):], s2.dims[len(pre2):]
            if d != d2 or s.type.w != s2.type.w:
                raise Unsupported("array assignment of different shapes")
            for idx in Sig("", s.type, d).elems():
                self.add((where.path, s.name, pre + idx), 0, s.type.w, "net", (pay[1].path, s2, pre2 + idx, 0))
            return
        x = Ex(where, {}, self.reader(where))
        if lhs[0] == "cat":
            raise Unsupported("assignment to a concatenation")
        s, ix, lo, ty, _ = x.ref(lhs)
        if any(t.op != "c" for t in ix) or not isinstance(lo, int):
            raise Unsupported("dynamic assignment target")
        self.add((where.path, s.name, tuple(t.p for t in ix)), lo, lo + ty.w, "expr", (pay[1], pay[2], ty.w))

    def _drive_port(self, kid, s, i, e):
        wh = self.whole(i, e)
        if s.dims:
            if not wh:
                raise Unsupported("array port")
            s2, pre2 = wh
            if s2.dims[len(pre2):] != s.dims or s2.type.w != s.type.w:
                raise Unsupported("array port of another shape")
            for idx in s.elems():
                self.add((kid.path, s.name, idx), 0, s.type.w, "net", (i.path, s2, pre2 + idx, 0))
            return
        if wh:
            raise Unsupported("array to a scalar port")
        self.add((kid.path, s.name, ()), 0, s.type.w, "expr", (i, e, s.type.w))

    def _drive_out(self, i, e, kid, s):
        wh = self.whole(i, e)
        if s.dims:
            if not wh:
                raise Unsupported("array port")
            s2, pre2 = wh
            if s2.dims[len(pre2):] != s.dims or s2.type.w != s.type.w:
                raise Unsupported("array port of another shape")
            for idx in s.elems():
                self.add((i.path, s2.name, pre2 + idx), 0, s.type.w, "net", (kid.path, s, idx, 0))
            return
        x = Ex(i, {}, self.reader(i))
        if wh or e[0] == "cat":
            raise Unsupported("output port connection")
        s2, ix, lo, ty, _ = x.ref(e)
        if any(t.op != "c" for t in ix) or not isinstance(lo, int):
            raise Unsupported("dynamic connection")
        if ty.w != s.type.w:
            raise Unsupported(f"port width: {s.name} of {kid.mod}")
        self.add((i.path, s2.name, tuple(t.p for t in ix)), lo, lo + ty.w, "net", (kid.path, s, (), 0))

    def value(self, path, s, idx, lo=0, hi=None):
        w = s.type.w
        if hi is None:
            hi = w
        k = (path, s.name, idx)
        ck = (k, lo, hi)
        r = self.val.get(ck)
        if r is not None:
            return r
        if ck in self.busy:
            raise Unsupported(f"loop through assignments at {'.'.join(path)}.{s.name}")
        self.busy.add(ck)
        parts, pos = [], lo
        for l, h, kind, pay in sorted(self.drv.get(k, []), key=lambda d: d[0]):
            a, b = max(l, pos), min(h, hi)
            if a >= b:
                continue
            if a > pos:
                parts.append(tm.extract(self.var(path, s, idx), pos, a))
            if kind in ("comb", "ff"):
                t = tm.extract(self.var(path, s, idx), a, b)
            elif kind == "net":
                t = self.value(pay[0], pay[1], pay[2], pay[3] + a - l, pay[3] + b - l)
            else:
                i, e, ww = pay
                x = Ex(i, {}, self.reader(i), self.fresh)
                t = tm.extract(x.assigned(e, ww), a - l, b - l)
            parts.append(t)
            pos = b
        if pos < hi:
            parts.append(tm.extract(self.var(path, s, idx), pos, hi))
        self.busy.discard(ck)
        r = self.val[ck] = tm.concat(*reversed(parts))
        return r

    def resolve(self, t):
        """placeholders of signals by their values"""
        m = {}
        ext = {}
        for x in tm.topo([t]):
            if x.op == "v" and isinstance(x.p, tuple) and x.p and x.p[0] == "v":
                _, path, name, idx = x.p
                m[x.p] = self.value(path, self.insts[path].sigs[name], idx)
        return tm.subst(t, m, {}) if m else t


def runs(mask):
    lo = 0
    while mask >> lo:
        if (mask >> lo) & 1:
            hi = lo
            while (mask >> hi) & 1:
                hi += 1
            yield lo, hi
            lo = hi
        else:
            lo += 1
