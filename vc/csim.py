"""Fast search for a failing input after an obligation failed: the extracted
transition system compiled to C and run against random legal environments.
Never decides a property: a hit is replayed on the real PyMTL simulation."""
import ctypes  # noqa: F401
import json
import os
import subprocess
import tempfile

from . import env  # noqa: F401
from . import term as tm

HERE = os.path.dirname(os.path.abspath(__file__))


def ctype(w):
    return f"b{w}"


class Emit:
    def __init__(self):
        self.widths = set()

    def lit(self, v, w):
        if w <= 64:
            return f"(b{w}){v}ull"
        parts = []
        sh = 0
        while v >> sh:
            x = (v >> sh) & ((1 << 64) - 1)
            if x:
                parts.append(f"((b{w}){x}ull<<{sh})" if sh else f"(b{w}){x}ull")
            sh += 64
        return "(" + "|".join(parts) + ")" if parts else f"(b{w})0"

    def func(self, name, roots, var_expr, outs):
        """C function computing roots; outs: list of lvalues."""
        L = []
        nm = {}
        for t in tm.topo(roots):
            op, a, w = t.op, t.a, t.w
            self.widths.add(w)
            if op == "c":
                nm[t.id] = self.lit(t.p, w)
                continue
            if op == "v":
                nm[t.id] = var_expr(t)
                continue
            s = [nm[x.id] for x in a]
            T = f"b{w}"
            if op == "not":
                e = f"({T})~{s[0]}"
            elif op in ("and", "or", "xor"):
                e = {"and": "&", "or": "|", "xor": "^"}[op].join(s)
            elif op == "eq":
                e = f"(b1)({s[0]}=={s[1]})"
            elif op == "ult":
                e = f"(b1)({s[0]}<{s[1]})"
            elif op in ("add", "sub", "mul"):
                e = f"({T})({s[0]}{ {'add':'+','sub':'-','mul':'*'}[op] }{s[1]})"
            elif op == "udiv":
                e = f"({s[1]}?({T})({s[0]}/{s[1]}):({T})~({T})0)"
            elif op == "urem":
                e = f"({s[1]}?({T})({s[0]}%{s[1]}):{s[0]})"
            elif op in ("shl", "lshr"):
                o = "<<" if op == "shl" else ">>"
                k = self.lit(w, a[1].w) if w < (1 << a[1].w) else None
                sh = f"({T})({s[0]}{o}(unsigned){s[1]})"
                e = f"({s[1]}<{k}?{sh}:({T})0)" if k else sh
            elif op == "ite":
                e = f"{s[0]}?{s[1]}:{s[2]}"
            elif op == "concat":
                sh, parts = w, []
                for x, y in zip(a, s):
                    sh -= x.w
                    if x.op == "c" and x.p == 0:
                        continue
                    parts.append(f"(({T}){y}<<{sh})" if sh else f"({T}){y}")
                e = "|".join(parts) or f"({T})0"
            elif op == "zext":
                e = f"({T}){s[0]}"
            elif op == "ext":
                e = f"({T})({s[0]}>>{t.p[0]})"
            else:
                raise AssertionError(op)
            nm[t.id] = f"t{t.id}"
            L.append(f" const {T} t{t.id}={e};")
        for r, o in zip(roots, outs):
            L.append(f" {o}={nm[r.id]};")
        return f"static void {name}(void){{\n" + "\n".join(L) + "\n}\n"


class Search:
    """c: Cache.  Builds the searcher executable in a scratch directory."""

    def __init__(self, c, names=None, pool=()):
        self.c = c
        p = c.p
        self.sv = list(c.state.values())
        self.iv = list(c.inputs.values())
        sn = {v.p: f"s{i}" for i, v in enumerate(self.sv)}
        inn = {v.p: f"i{i}" for i, v in enumerate(self.iv)}
        self.names = [n for n in c.checks if names is None or n in names]
        obl = [(o, t) for o, t in c.d.obligations() if o is not tm.TRUE]
        em = Emit()

        def ve(t):
            if t.p in sn:
                return sn[t.p]
            if t.p in inn:
                return inn[t.p]
            return f"(b{t.w})0"
        for v in self.sv + self.iv:
            em.widths.add(v.w)
        decl = []
        for v in self.sv:
            decl.append(f"static b{v.w} {sn[v.p]},n{sn[v.p]};")
        for v in self.iv:
            decl.append(f"static b{v.w} {inn[v.p]};")
        pn = {}
        for k, t in p.items():
            em.widths.add(t.w)
            if t.op == "v" and t.p in inn:
                pn[k] = inn[t.p]
            else:
                pn[k] = f"p_{k}"
                decl.append(f"static b{t.w} p_{k};")
        srams = c.tag_cut + [c.data_cut]
        sp = []
        for k, u in enumerate(srams):
            for n, t in zip(("val", "typ", "idx", "wd", "wb"), u.ports(c.d)):
                em.widths.add(t.w)
                decl.append(f"static b{t.w} r{k}_{n};")
                sp.append((t, f"r{k}_{n}"))
        rc = c.rep_cut.c
        rp = []
        for n, s in (("raddr", rc.raddr), ("waddr", rc.waddr), ("wen", rc.wen), ("wdata", rc.wdata)):
            t = c.d.value(s)
            em.widths.add(t.w)
            decl.append(f"static b{t.w} rep_{n};")
            rp.append((t, f"rep_{n}"))
        decl.append(f"static unsigned char ck[{max(1, len(self.names))}],ob[{max(1, len(obl))}];")
        out_ports = [(t, pn[k]) for k, t in p.items() if pn[k].startswith("p_")]
        early = [x for x in out_ports if x[1] in ("p_creq_rdy", "p_mresp_rdy")]
        body = []
        f = lambda name, prs: body.append(em.func(name, [a for a, _ in prs], ve, [b for _, b in prs]))
        f("f_raddr", rp[:1])
        f("f_early", early)
        f("f_ports", out_ports)
        f("f_full", [(c.nxt[v.p], "n" + sn[v.p]) for v in self.sv] +
          [(c.checks[n], f"ck[{i}]") for i, n in enumerate(self.names)] +
          [(o, f"ob[{i}]") for i, (o, _) in enumerate(obl)] + sp + rp)
        commit = "static void commit(void){" + "".join(f"{sn[v.p]}=n{sn[v.p]};" for v in self.sv) + "}"
        zero = "static void zero_in(void){" + "".join(f"{inn[v.p]}=0;" for v in self.iv) + "}"
        zs = "static void zero_state(void){" + "".join(f"{sn[v.p]}=0;" for v in self.sv) + "}"
        g = lambda n: sn[("ghost", n)]
        gz = "static void ghost_reset(unsigned char m){" + "".join(
            f"{sn[v.p]}=0;" for v in self.sv if isinstance(v.p, tuple) and v.p[0] == "ghost") + \
            f"{g('gone')}=1;{g('M')}=m;{g('B')}=m;}}"
        nrow = [len(u.rows) for u in srams]
        em.widths |= {c.cfg.line, c.aw, 8, 1, 4, c.dw, 32, 64}
        macros = dict(AW=c.aw, DW=c.dw, LB=c.lb, OFFW=c.offw, IDXW=c.idxw, TAGW=c.tagw, LENW=c.lenw,
                      NSETS=c.nsets, NLINES=c.nlines, LINE=c.cfg.line, OPQ=c.cfg.opq, NCK=len(self.names),
                      NOB=len(obl), NSRAM=len(srams), ASSOC=c.cfg.assoc, TGW=srams[0].w,
                      DBL=int(c.dw == 32 and c.cfg.line >= 64))
        m = "".join(f"#define {k} {v}\n" for k, v in macros.items())
        names = {f"X_{k}": n for k, n in pn.items()}
        m += "".join(f"#define {k} {v}\n" for k, v in names.items())
        m += f"#define S_A {sn['A']}\n#define I_EXT {inn[('env', 'other_agent_writes')]}\n" \
             f"#define I_EXTV {inn[('env', 'other_agent_value')]}\n#define I_AMOV {inn[('env', 'amo_result')]}\n" \
             f"#define I_REP {inn[c.rep_cut.havoc.p]}\n#define S_REP {sn[c.rep_cut.bit.p]}\n"
        load, apply_, clr = [], [], []
        for k, u in enumerate(srams):
            n = 1
            while n < (1 << u.ports(c.d)[2].w):
                n *= 2
            decl.append(f"static b{u.w} mem{k}[{n}], dout{k};")
            load.append(f" {sn[u.dout.p]}=dout{k};")
            for j, (l, t) in enumerate(u.rows):
                em.widths.add(t.w)
                body.append(em.func(f"f_row{k}_{j}", [t], ve, [f"row{k}_{j}"]))
                decl.append(f"static b{t.w} row{k}_{j};")
                load.append(f" {sn[u.row[j].p]}=mem{k}[row{k}_{j}];")
            apply_.append(f" if(r{k}_val){{ if(r{k}_typ) mem{k}[r{k}_idx]=(mem{k}[r{k}_idx]&(b{u.w})~r{k}_wb)|(r{k}_wd&r{k}_wb);"
                          f" else dout{k}=mem{k}[r{k}_idx]; }}")
            clr.append(f" memset(mem{k},0,sizeof mem{k}); dout{k}=0;")
        rows = "".join(f"f_row{k}_{j}();" for k, u in enumerate(srams) for j in range(len(u.rows)))
        decl.append(f"static b1 rep[{1 << c.idxw}];")
        hdr = "#include <stdint.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <time.h>\n"
        hdr += "".join(f"typedef unsigned _BitInt({w}) b{w};\n" for w in sorted(em.widths))
        dct = sorted({int(x) for x in pool if int(x) >= 0})[:4000]
        dlit = ",".join(f"{x & ((1 << 64) - 1)}ull" for x in dct) or "0"
        fns = "static void load_srams(void){" + "".join(load) + "}\nstatic void apply_srams(void){" + \
            "".join(apply_) + "}\nstatic void clear_srams(void){" + "".join(clr) + "}\n" \
            f"static void rows(void){{{rows}}}\n" \
            f"static const uint64_t DICT[]={{{dlit}}};\n#define NDICT {max(1, len(dct))}\n"
        # trace printing: inputs visible at the ports
        tr = []
        for k in ("reset", "creq_en", "creq_type_", "creq_opaque", "creq_addr", "creq_len", "creq_data",
                  "cresp_rdy", "mreq_rdy", "mresp_en", "mresp_type_", "mresp_opaque", "mresp_data"):
            tr.append((k, pn[k]))
        prt = "static void trace_line(void){ printf(\"T\");" + "".join(
            f' put({p[k].w},(b1024){v});' for k, v in tr) + \
            ' put(1,I_EXT);put(8,I_EXTV); printf("\\n"); }\n'
        em.widths.add(1024)
        hdr += "typedef unsigned _BitInt(1024) b1024;\n" if 1024 not in sorted(em.widths)[:-1] else ""
        put = "static void put(int w,b1024 v){ char s[300]; int n=0; int d=(w+3)/4; putchar(' ');" \
              " for(int i=d-1;i>=0;i--) s[n++]=\"0123456789abcdef\"[(unsigned)((v>>(4*i))&15)]; s[n]=0; fputs(s,stdout);}\n"
        self.trace_fields = [k for k, _ in tr] + ["ext", "extv"]
        tmpl = open(os.path.join(HERE, "csim.c")).read()
        self.src = hdr + m + "\n".join(decl) + "\n" + "".join(body) + commit + "\n" + zero + "\n" + zs + \
            "\n" + gz + "\n" + fns + put + prt + tmpl
        self.obl = [t for _, t in obl]
        self.dir = tempfile.mkdtemp(prefix="csim")
        self.exe = os.path.join(self.dir, "search")
        path = os.path.join(self.dir, "search.c")
        open(path, "w").write(self.src)
        subprocess.run(["clang", "-O1", "-w", "-o", self.exe, path], check=True,
                       capture_output=True)

    def start(self, seed, seconds, mask=None, resets=False):
        """Run one searcher process."""
        m = ",".join(str(self.names.index(n)) for n in (mask if mask is not None else self.names) if n in self.names)
        if mask is not None and "w" in mask:
            m += ",w"
        return subprocess.Popen([self.exe, str(seed), str(seconds), m.strip(",") or "-"] + ["r"] * resets,
                                stdout=subprocess.PIPE, text=True)

    def parse(self, out):
        """-> (what, trace, stats)"""
        what, A, trace, stats = None, None, [], {}
        for l in out.splitlines():
            f = l.split()
            if not f:
                continue
            if f[0] == "V":
                k, n, cyc = f[1], int(f[2]), int(f[3])
                what = {"ck": lambda: self.names[n], "ob": lambda: "exception: " + self.obl[n],
                        "wd": lambda: "watchdog"}[k]()
            elif f[0] == "A":
                A = int(f[1], 16)
            elif f[0] == "T":
                trace.append([int(x, 16) for x in f[1:]])
            elif f[0] == "S":
                stats = dict(cycles=int(f[1]), requests=int(f[2]), runs=int(f[3]))
        return what, A, trace, stats

    def close(self):
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)


def constants(roots, minw=5):
    """Constants the design compares wide values with: a dictionary for the
    stimulus generator."""
    r = set()
    for t in tm.topo(roots):
        if t.op in ("eq", "ult"):
            for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if x.op == "c" and y.op != "c" and x.w >= minw:
                    r.add(x.p)
                    if t.op == "ult":
                        r.update({x.p - 1, x.p + 1})
    return {x for x in r if x >= 0}
