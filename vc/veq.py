"""The Verilog that blocking_cache/translate.py writes against the PyMTL3 model.

Compositional: every signal of the model that an update block assigns, every
register, every output and every SRAM port is compared, one step at a time,
with the signal of the same hierarchical name in the generated text, all other
signals being arbitrary.  Both sides are acyclic, so equality of every step is
equality of the designs for every input and state.  The SRAMs are compared
through their contract (vc/cuts.py): the Verilog module is proved against it
here, the PyMTL3 class in vc/contracts.py."""
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

from . import env  # noqa: F401
from . import cuts
from . import term as tm
from . import verilog as vl
from .design import Design, leafname
from .prove import solve
from .sym import Unsupported

OPT = [("--size", "nbytes"), ("--clw", "line"), ("--dbw", "data"), ("--abw", "addr"), ("--obw", "opq"),
       ("--asso", "assoc")]


def generate(cfg, replace=False, extra=()):
    """run the repository's translator as a user does -> (module name, text)"""
    d = tempfile.mkdtemp(prefix="veq")
    try:
        cmd = [sys.executable, "-W", "ignore", os.path.join(env.REPO, "blocking_cache", "translate.py")]
        for o, a in OPT:
            cmd += [o, str(getattr(cfg, a))]
        if replace:
            cmd.append("--replace-sram")
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=600, env=e)
        name = f"BlockingCache_{cfg.nbytes}_{cfg.line}_{cfg.addr}_{cfg.data}_{cfg.assoc}"
        f = os.path.join(d, name + ".v")
        if p.returncode or not os.path.isfile(f):
            raise NotGenerated(f"translate.py exited with {p.returncode}, files {sorted(os.listdir(d))}: "
                               + (p.stdout + p.stderr)[-400:])
        with open(f) as h:
            return name, h.read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


class NotGenerated(Exception):
    pass


# ------------------------------------------------------------------ the model
class OneStep(Design):
    """Signals assigned by update blocks stay variables; connections are
    followed."""

    def value(self, sig, path=(), lo=None, hi=None):
        w = self.leaf_width(sig, path)
        if lo is None:
            lo, hi = 0, w
        key = (sig, path, lo, hi)
        r = self._val.get(key)
        if r is not None:
            return r
        parts, pos = [], lo
        for l, h, kind, pay in sorted(self.drivers.get((sig, path), []), key=lambda d: d[0]):
            a, b = max(l, pos), min(h, hi)
            if a >= b:
                continue
            if a > pos:
                parts.append(self._free(sig, path, pos, a))
            if kind in ("reg", "blk"):
                t = tm.extract(self.placeholder(sig, path, w), a, b)
            elif kind == "const":
                t = tm.extract(pay, a - l, b - l)
            elif kind == "net":
                s1, p1, l1, h1 = pay
                t = self.value(s1, p1, l1 + a - l, l1 + b - l)
            else:
                t = tm.extract(pay.output(self, sig, path), a, b)
            parts.append(t)
            pos = b
        if pos < hi:
            parts.append(self._free(sig, path, pos, hi))
        r = self._val[key] = tm.concat(*reversed(parts))
        return r


def split(name):
    """'in_[1]' -> ('in_', (1,)); 'ifc[0].msg' -> ('ifc__0__msg', ())"""
    m = re.match(r"^(.*?)((?:\[\d+\])*)$", name)
    base, ix = m.group(1), tuple(int(x) for x in re.findall(r"\[(\d+)\]", m.group(2)))
    base = re.sub(r"\[(\d+)\]", r"__\1", base).replace(".", "__")
    return base, ix


def comp_path(c, top):
    r = repr(c)
    t = repr(top)
    if r == t:
        return ()
    return tuple(re.sub(r"\[(\d+)\]", r"__\1", x) for x in r[len(t) + 1:].split("."))


def srams(top):
    return [c for c in sorted(top.get_all_components(), key=repr) if type(c).__name__ == "SramPRTL"]


class Pair:
    """the model of a configuration and the text generated for it"""

    def __init__(self, cfg, name, text):
        self.cfg = cfg
        self.top = cfg.make()
        self.srams = srams(self.top)
        cs = {m: cuts.Sram(m, repr(m), []) for m in self.srams}
        self.cs = cs
        self.d = OneStep(self.top, cuts=cs)
        self.src = vl.Parser(text)
        if name not in self.src.modules:
            raise NotGenerated(f"no module {name}")
        # the PyMTL signals by their name in Verilog
        self.sig, self.alias, self.alias_of = {}, {}, {}
        for s in self.top.get_all_object_filter(lambda o: hasattr(o, "_dsl") and self._plain(o)):
            h = s.get_host_component()
            n, ix = split(repr(s)[len(repr(h)) + 1:])
            cp = comp_path(h, self.top)
            self.sig[(cp, n, ix)] = s
            if cp:      # the net of the parent that is connected to this port
                kb, ki = split(repr(h).rsplit(".", 1)[1] if "." in repr(h) else repr(h))
                self.alias[(cp[:-1], f"{kb}__{n}", ki + ix)] = s
                self.alias_of[id(s)] = (cp[:-1], f"{kb}__{n}", ki + ix)
        spaths = {comp_path(m, self.top) for m in self.srams}
        probe = vl.Inst(self.src, name, {}, ())
        black, paths = set(), {}

        def walk(i):
            paths[i.path] = i
            if i.path in spaths:
                black.add(i.mod)
                return
            for k in i.kids.values():
                if k is not None:
                    walk(k)
        walk(probe)
        lost = spaths - set(paths)
        if lost:
            raise NotGenerated(f"no instance {sorted(lost)}")
        self.sram_mod = {m: paths[comp_path(m, self.top)] for m in self.srams}
        self.net = vl.Netlist(self.src, name, self.var, black)
        self.name = name

    @staticmethod
    def _plain(o):
        from pymtl3.dsl import Signal
        return isinstance(o, Signal) and o._dsl.top_level_signal is o

    def leaves(self, s):
        return self.d.ref_leaves(self.d.sigref(s))

    def var(self, path, s, idx):
        """value of a Verilog signal in terms of the model's variables"""
        p = self.sig.get((path, s.name, idx))
        if p is None:
            p = self.alias.get((path, s.name, idx))
        if p is None:
            return tm.var(("vonly", path, s.name, idx), s.type.w)
        t = tm.concat(*[self.d.value(a, b, lo, lo + w) for a, b, lo, w in self.leaves(p)])
        if t.w != s.type.w:
            raise Mismatch(f"{'.'.join(path)}.{s.name} has {s.type.w} bits, the model {t.w}")
        return t

    def goals(self):
        """[(name, hyps, goal)]"""
        d, net = self.d, self.net
        out = []
        hyp = {}
        for ok, text in d.obls:
            hyp.setdefault(text.split(":")[0], []).append(ok)

        def hyps(host):
            r = repr(host)
            h = hyp.get(r, [])
            if h and isinstance(h, list):
                h = hyp[r] = tuple(x for x in (d.resolve(o) for o in h) if x is not tm.TRUE)
            return list(h)

        def vsig(p):
            h = p.get_host_component()
            n, ix = split(repr(p)[len(repr(h)) + 1:])
            path = comp_path(h, self.top)
            i = net.insts.get(path)
            s = i.sigs.get(n) if i else None
            if s is None or ix not in s.elems():
                return None
            al = self.alias_of.get(id(p))
            if al in net.def_:      # assigned in the parent, at the connected net
                return al[0], net.insts[al[0]].sigs[al[1]], al[2]
            return path, s, ix

        def one(path, s, ix):
            """one step of the Verilog definition"""
            key = (path, s.name, ix)
            t = net.value(path, s, ix)
            if key in net.def_:
                dt, mask, kind = net.def_[key]
                if kind == "comb":
                    dt = net.resolve(dt)
                    for lo, hi in vl.runs(mask):
                        t = tm.update(t, lo, hi, tm.extract(dt, lo, hi)) if (lo, hi) != (0, t.w) else dt
            return t

        def pos(p):
            at, r = sum(x[3] for x in self.leaves(p)), {}
            for a, b, lo, w in self.leaves(p):
                at -= w
                r[b] = (at, at + w)
            return r

        done = {}
        for p in sorted(self.sig.values(), key=repr):
            host = p.get_host_component()
            if d._cut_of(host) is not None:
                continue
            v = vsig(p)
            where = None
            top_out = host is self.top and p.is_output_value_port()
            for a, b, _, w in self.leaves(p):
                ds = d.drivers.get((a, b), [])
                blk = [x for x in ds if x[2] == "blk"]
                reg = any(x[2] == "reg" for x in ds)
                vdef = net.def_.get((v[0], v[1].name, v[2])) if v else None
                if not blk and not reg and not top_out and not vdef:
                    continue
                name = leafname(a, b)
                if v is None:
                    out.append((f"{name} exists", [], tm.FALSE))
                    continue
                if where is None:
                    where = pos(p)
                    if v[1].type.w != max(h for _, h in where.values()):
                        out.append((f"{name} has the same width", [], tm.FALSE))
                        break
                lo, hi = where[b]
                if reg:
                    if vdef is None or vdef[2] != "ff" or (vdef[1] >> lo) & ((1 << w) - 1) != (1 << w) - 1:
                        out.append((f"{name} is a register", [], tm.FALSE))
                        continue
                    k = ("ff", v[0], v[1].name, v[2])
                    if k not in done:
                        done[k] = net.resolve(vdef[0])
                    out.append((f"next {name}", hyps(host), tm.eq(tm.extract(done[k], lo, hi), d.resolve(d.reg_next[(a, b)]))))
                    continue
                if vdef and vdef[2] == "ff" and (vdef[1] >> lo) & ((1 << w) - 1):
                    out.append((f"{name} is not a register", [], tm.FALSE))
                    continue
                k = ("comb", v[0], v[1].name, v[2])
                if k not in done:
                    done[k] = one(*v)
                if blk:
                    t = d.value(a, b)
                    for l, h, _, pay in blk:
                        q = d.resolve(tm.extract(pay, l, h))
                        t = q if (l, h) == (0, w) else tm.update(t, l, h, q)
                else:
                    t = d.value(a, b)
                out.append((name, hyps(host), tm.eq(tm.extract(done[k], lo, hi), t)))
        for m in self.srams:
            path = comp_path(m, self.top)
            i = net.insts[path]
            for port in ("port0_val", "port0_type", "port0_idx", "port0_wdata", "port0_wben"):
                s = i.sigs.get(port)
                p = getattr(m, port)
                if s is None:
                    out.append((f"{m!r}.{port} exists", [], tm.FALSE))
                    continue
                out.append((f"{m!r}.{port}", [], tm.eq(net.value(path, s, ()), d.value(p))))
        ports = {n for n, s in net.insts[()].sigs.items() if s.dir}
        mine = {n for (pa, n, ix), s in self.sig.items() if pa == () and not ix and
                (s.is_input_value_port() or s.is_output_value_port())}
        out.append(("the same ports", [], tm.bool_(ports == mine)))
        for (pa, n, ix), p in self.sig.items():
            if pa == () and n in ports:
                s = net.insts[()].sigs[n]
                want = "input" if p.is_input_value_port() else "output"
                out.append((f"port {n}", [], tm.bool_(s.dir == want and s.type.w == sum(x[3] for x in self.leaves(p)))))
        return out


class Mismatch(Exception):
    pass


# ------------------------------------------------------------------ the SRAMs
class Flat(vl.Netlist):
    """every combinational signal expanded; registers are variables"""

    def __init__(self, src, top, params=None):
        self._memo = {}
        super().__init__(src, top, lambda path, s, idx: tm.var(("st", path, s.name, idx), s.type.w), (), params)

    def value(self, path, s, idx, lo=0, hi=None):
        key = (path, s.name, idx)
        d = self.def_.get(key)
        if d is not None and d[2] == "comb" and d[1] == (1 << s.type.w) - 1:
            r = self._memo.get(key)
            if r is None:
                if key in self.busy:
                    raise vl.Unsupported(f"combinational loop at {s.name}")
                self.busy.add(key)
                r = self._memo[key] = self.resolve(d[0])
                self.busy.discard(key)
            return tm.extract(r, lo, s.type.w if hi is None else hi)
        if d is not None and d[2] == "comb":
            raise vl.Unsupported(f"{s.name} assigned in parts")
        return super().value(path, s, idx, lo, hi)


MACRO = """
module {name}
(
   input logic CLK, input logic CEN, input logic RDWEN, input logic [{a}:0] A, input logic [{d}:0] D,
   input logic [{d}:0] BW, input logic T_LOGIC, input logic T_Q_RST, output logic [{d}:0] Q,
   output logic [1:0] OBSV_CTL, input logic MA_SAWL, input logic MA_WL, input logic MA_VD1,
   input logic MA_VD0, input logic MA_WRT
);
  logic [{d}:0] ram [0:{n}];
  logic [{d}:0] ram_next [0:{n}];
  always_comb begin
    for ( int i = 0; i <= {n}; i += 1 )
      ram_next[i] = ram[i];
    for ( int i = 0; i <= {d}; i += 1 )
      if ( ( !CEN ) && ( !RDWEN ) && BW[i] )
        ram_next[A][i] = D[i];
  end
  always_ff @(posedge CLK) begin
    if ( ( !CEN ) && RDWEN ) Q <= ram[A];
    else Q <= 0;
    for ( int i = 0; i <= {n}; i += 1 )
      ram[i] <= ram_next[i];
  end
endmodule
"""


def sram_goals(src, inst, ports, nbits, nwords, hold):
    """Contract of an SRAM module.  ports: contract name -> (Verilog port, active low)"""
    params = {k: v for k, v in inst.params.items()}
    missing = [m for _, m in walk_missing(inst)]
    for m in missing:
        q = re.match(r"^sram_(\d+)x(\d+)$", m)
        if not q:
            raise vl.Unsupported(f"module {m}")
        n, w = int(q.group(1)), int(q.group(2))
        stub = vl.Parser(MACRO.format(name=m, a=max(0, (n - 1).bit_length() - 1), d=w - 1, n=n - 1))
        src.modules.update(stub.modules)
    net = Flat(src, inst.mod, params)
    top = net.insts[()]

    def port(k):
        n, low = ports[k]
        s = top.sigs.get(n)
        if s is None:
            raise Mismatch(f"no port {n}")
        t = net.value((), s, ())
        return tm.not_(t) if low else t
    val, typ, idx, wd, wb, out = (port(k) for k in ("val", "type", "idx", "wdata", "wben", "rdata"))
    g = {"port widths": tm.bool_(idx.w == max(1, (nwords - 1).bit_length()) and wd.w == wb.w == out.w == nbits)}
    if g["port widths"] is not tm.TRUE:
        return g, missing
    for k in ("oeb", "ce"):
        if k in ports:
            out = tm.subst(out, {port(k).p: tm.FALSE}, {}) if k == "oeb" else out
    arr, regs = {}, []
    for (path, name, ix), (t, mask, kind) in net.def_.items():
        if kind != "ff":
            continue
        if ix:
            arr.setdefault((path, name), {})[ix] = t
        else:
            regs.append((path, name))
    if len(arr) != 1:
        raise vl.Unsupported(f"{len(arr)} memories")
    (path, name), rows = next(iter(arr.items()))
    s = net.insts[path].sigs[name]
    if sorted(rows) != [(k,) for k in range(nwords)] or s.type.w != nbits:
        g["size of the memory"] = tm.FALSE
        return g, missing
    ram = [tm.var(("st", path, name, (k,)), nbits) for k in range(nwords)]
    regs_next = {}
    for rp, rn in regs:
        regs_next[("st", rp, rn, ())] = net.resolve(net.def_[(rp, rn, ())][0])
    en_w, en_r = tm.andl(val, typ), tm.andl(val, tm.not_(typ))
    # Rows are alike: with the address a constant, and the row's content
    # arbitrary, the step of every row is one and the same formula.
    step = max(1, 2048 // nbits)
    R = tm.var(("row",), nbits)
    want = tm.ite(en_w, tm.or_(tm.and_(R, tm.not_(wb)), tm.and_(wd, wb)), R)
    same = {}
    for k in range(nwords):
        t = net.resolve(rows[(k,)])
        at = tm.eq(idx, tm.const(k, idx.w))
        hit = tm.subst(tm.subst(t, {idx.p: tm.const(k, idx.w)}, {}), {ram[k].p: R}, {})
        miss = tm.subst(t, {ram[k].p: R}, {at.id: tm.FALSE, tm.not_(at).id: tm.TRUE}) if at.op != "c" else R
        u = tm.andl(tm.eq(hit, want), tm.eq(miss, R))
        if miss is not R:       # the text decodes the address in some other way
            u = tm.andl(tm.eq(hit, want), tm.implies(tm.not_(at), tm.eq(miss, R)))
        same.setdefault(u.id, (u, []))[1].append(k)
    for u, ks in same.values():
        r = f"{ks[0]}-{ks[-1]}" if len(ks) > 1 else str(ks[0])
        g[f"write changes exactly the enabled bits of the addressed row, rows {r}"] = u
    if {x.p for x in tm.topo([out]) if x.op == "v"} & {r.p for r in ram}:     # the memory is read after the edge
        regs_next.update({r.p: net.resolve(rows[(k,)]) for k, r in enumerate(ram)})
    out1 = tm.subst(out, regs_next, {})
    for k0 in range(0, nwords, step):
        c = []
        for k in range(k0, min(nwords, k0 + step)):
            sb = {idx.p: tm.const(k, idx.w)}
            c.append(tm.implies(tm.subst(en_r, sb, {}), tm.eq(tm.subst(out1, sb, {}), ram[k])))
        g[f"read data is the addressed row one cycle later, rows {k0}-{min(nwords, k0 + step) - 1}"] = tm.andl(*c)
    if hold:
        g["read data is held without a read"] = tm.implies(tm.not_(en_r), tm.eq(out1, out))
    dep = {x.p for x in tm.topo([out]) if x.op == "v"}
    ins = {("st", (), s.name, ()) for s in top.sigs.values() if s.dir == "input"}
    g["read data does not depend on this cycle's inputs"] = tm.bool_(not dep & ins)
    return g, missing


def walk_missing(i):
    for n, k in i.kids.items():
        if k is None:
            yield i, i.conn[n][0]
        else:
            yield from walk_missing(k)


PORT0 = {k: ("port0_" + k, False) for k in ("val", "type", "idx", "wdata", "wben", "rdata")}
MACROP = {"val": ("CSB1", True), "type": ("WEB1", True), "idx": ("A1", False), "wdata": ("I1", False),
          "wben": ("WBM1", False), "rdata": ("O1", False), "oeb": ("OEB1", False)}


def discharge(gs, timeout=45):
    """[(name, hyps, goal)] -> results of runner"""
    out, bad = [], 0
    for n, h, g in gs:
        r = solve(h, g, timeout) if bad < 3 else ("unknown", "not tried: others failed", 0.0)
        bad += r[0] != "proved"
        out.append((n,) + r)
    return out


MACROS = {(128, 256), (26, 128), (128, 512), (25, 256)}      # sizes with a foundry macro


def equal_job(cfg, replace=False):
    """goals of one configuration; with replace, of the text --replace-sram writes"""
    def go():
        t0 = time.time()
        try:
            name, text = generate(cfg, replace)
            p = Pair(cfg, name, text)
            gs = p.goals()
            seen = set()
            for m in p.srams:
                i = p.sram_mod[m]
                if i.mod in seen:
                    continue
                seen.add(i.mod)
                nb, nw = m.port0_wdata._dsl.Type.nbits, 1 << m.port0_idx._dsl.Type.nbits
                g, _ = sram_goals(p.src, i, PORT0, nb, nw, not replace)
                gs += [(f"{i.mod}: {n}", [], t) for n, t in g.items()]
                if replace:
                    mine = {k.mod for k in i.kids.values() if k is not None}
                    gs.append((f"{i.mod}: the wrapper is used exactly for the macros' sizes", [],
                               tm.bool_(("SramGenericPRTL" in mine) == ((nb, nw) in MACROS))))
        except (vl.Unsupported, Unsupported) as e:
            return [("translation", "unreached", f"{type(e).__name__}: {e}", time.time() - t0)]
        except (NotGenerated, Mismatch) as e:
            return [("translate.py writes the module of the configuration", "failed", str(e), time.time() - t0)]
        return discharge(gs)
    return go


def wrapper():
    with open(os.path.join(env.REPO, "sram", "brg_gf14_sram_generic_synopsys.v")) as f:
        return f.read()


def wrapper_job(nbits, nwords):
    def go():
        t0 = time.time()
        try:
            p = vl.Parser(wrapper())
            i = vl.Inst(p, "SramGenericPRTL", {"num_bits": tm.const(nbits, 32), "num_words": tm.const(nwords, 32)}, ())
            g, _ = sram_goals(p, i, MACROP, nbits, nwords, False)
        except (vl.Unsupported, Unsupported) as e:
            return [("wrapper", "unreached", f"{type(e).__name__}: {e}", time.time() - t0)]
        except Mismatch as e:
            return [("wrapper ports", "failed", str(e), time.time() - t0)]
        return discharge([(n, [], t) for n, t in g.items()])
    return go


def sram_modules(cfg, name, text):
    """Verilog module -> (bits, words) of the model's SRAMs"""
    p = Pair(cfg, name, text)
    return {p.sram_mod[m].mod: (m.port0_wdata._dsl.Type.nbits, 1 << m.port0_idx._dsl.Type.nbits) for m in p.srams}


def with_macros(text):
    """the foundry's macros the text instantiates but does not define, as MACRO"""
    for n, w in sorted(set(re.findall(r"^\s*sram_(\d+)x(\d+)\b", text, re.M))):
        if not re.search(rf"^\s*module\s+sram_{n}x{w}\b", text, re.M):
            text += MACRO.format(name=f"sram_{n}x{w}", a=max(0, (int(n) - 1).bit_length() - 1), d=int(w) - 1, n=int(n) - 1)
    return text
