"""The generated Verilog, compiled by Verilator, against the PyMTL3 simulation
of the model on the same stimulus.  Only a search for failing inputs (and the
labelled bounded stand-in for text outside the front end's reach)."""
import os
import random
import shutil
import subprocess
import tempfile
import time

from . import env  # noqa: F401
from . import realsim
from .replay import FIELDS

MAIN = r"""
#include "V%(m)s.h"
#include "verilated.h"
#include <cstdio>
#include <cstring>
static V%(m)s *t;
#define CLK t->%(c)s
static bool hex(const char *&p, unsigned *w, int n) {
  while (*p == ' ') ++p;
  if (!*p || *p == '\n') return false;
  const char *q = p; while (*q && *q != ' ' && *q != '\n') ++q;
  memset(w, 0, 4 * n);
  int k = 0;
  for (const char *r = q - 1; r >= p; --r, ++k) {
    char c = *r; unsigned v = c <= '9' ? c - '0' : c - 'a' + 10;
    if (k / 8 < n) w[k / 8] |= v << (4 * (k %% 8));
  }
  p = q; return true;
}
static void put(const unsigned *w, int n) { for (int i = n; i-- > 0;) printf("%%08x", w[i]); putchar(' '); }
static char line[1 << 20];
int main() {
  t = new V%(m)s;
  CLK = 0; t->eval();
  while (fgets(line, sizeof line, stdin)) {
    const char *p = line; unsigned w[256];
    (void)w;
%(ins)s
    t->eval();
%(outs)s
    putchar('\n'); fflush(stdout);
    CLK = 1; t->eval();
    CLK = 0; t->eval();
  }
  return 0;
}
"""


def words(n):
    return (n + 31) // 32


def harness(name, ports, clock="clk"):
    """ports: [(verilog name, width, direction)]"""
    ins, outs = [], []
    for n, w, d in ports:
        m = n.replace("__", "___05F")
        k = words(w)
        if d == "input":
            if n == clock:
                continue
            ins.append(f"    hex(p, w, {k});")
            if w <= 32:
                ins.append(f"    t->{m} = w[0];")
            elif w <= 64:
                ins.append(f"    t->{m} = (QData)w[0] | ((QData)w[1] << 32);")
            else:
                ins.append(f"    for (int i = 0; i < {k}; ++i) t->{m}[i] = w[i];")
        else:
            if w <= 32:
                outs.append(f"    w[0] = t->{m};")
            elif w <= 64:
                outs.append(f"    w[0] = (unsigned)t->{m}; w[1] = (unsigned)(t->{m} >> 32);")
            else:
                outs.append(f"    for (int i = 0; i < {k}; ++i) w[i] = t->{m}[i];")
            outs.append(f"    put(w, {k});")
    return MAIN % dict(m="top", c=clock, ins="\n".join(ins), outs="\n".join(outs))


class Compiled:
    def __init__(self, name, text, ports, clock="clk"):
        self.dir = tempfile.mkdtemp(prefix="vsim")
        self.ports, self.proc, self.clock = ports, None, clock
        f = os.path.join(self.dir, name + ".v")
        with open(f, "w") as h:
            h.write(text)
        with open(os.path.join(self.dir, "main.cpp"), "w") as h:
            h.write(harness(name, ports, clock))
        p = subprocess.run(
            ["verilator", "--cc", "--exe", "--build", "-Wno-fatal", "-Wno-lint", "-Wno-style", "--top-module", name, "--prefix", "Vtop",
             "--x-assign", "0", "--x-initial", "0", "-O3", "--unroll-count", "1000000", "--unroll-stmts", "1000000",
             "-Mdir", os.path.join(self.dir, "o"), "-CFLAGS", "-O1", "-j", "4", f, os.path.join(self.dir, "main.cpp")],
            capture_output=True, text=True, timeout=600, cwd=self.dir)
        self.exe = os.path.join(self.dir, "o", "Vtop")
        if p.returncode or not os.path.isfile(self.exe):
            t = p.stdout + p.stderr
            t = "\n".join(x for x in t.splitlines() if "rror" in x)[:600] or t[-600:]
            self.close()
            raise RuntimeError(f"verilator: {t}")

    def close(self):
        if self.proc:
            self.proc.kill()
            self.proc.wait()
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, rows):
        """rows: [{input port: int}] -> [{output port: int}]; state is kept
        from one call to the next"""
        if self.proc is None:
            self.proc = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        ins = [n for n, _, d in self.ports if d == "input" and n != self.clock]
        outs = [n for n, _, d in self.ports if d == "output"]
        res = []
        for r in rows:
            self.proc.stdin.write(" ".join(f"{r[n]:x}" for n in ins) + "\n")
            self.proc.stdin.flush()
            ln = self.proc.stdout.readline()
            if not ln:
                raise RuntimeError("the compiled Verilog ended")
            res.append(dict(zip(outs, (int(x, 16) for x in ln.split()))))
        return res


def ports_of(top):
    """[(verilog name, width, direction)] of an elaborated model"""
    from pymtl3.dsl import Signal
    r = []
    for s in sorted(top.get_all_object_filter(lambda o: isinstance(o, Signal) and o._dsl.top_level_signal is o),
                    key=repr):
        if s.get_host_component() is top and (s.is_input_value_port() or s.is_output_value_port()):
            n = repr(s)[2:].replace(".", "__")
            r.append((n, s._dsl.Type.nbits, "input" if s.is_input_value_port() else "output"))
    return r


def snap(dut, ports, direction):
    r = {}
    for n, w, d in ports:
        if d == direction and n != "clk":
            o = dut
            for x in n.split("__"):
                o = getattr(o, x)
            v = o.to_bits() if hasattr(o, "to_bits") else o
            r[n] = int(v)
    return r


class Tap:
    """records the model's port values of every cycle"""

    def __init__(self, dut, ports):
        self.ins, self.outs = [], []
        tick = dut.sim_tick

        def sim_tick():
            self.ins.append(snap(dut, ports, "input"))
            self.outs.append(snap(dut, ports, "output"))
            tick()
        dut.sim_tick = sim_tick


def compare(cfg, name, text, seed, seconds, cycles=300, rows=None):
    """-> (hit or None, runs, cycles).  hit: (cycle, text, rows since the start)"""
    end = time.time() + seconds
    dut = realsim.build(cfg)
    ports = ports_of(dut)
    tap = Tap(dut, ports)
    c = Compiled(name, text, ports)
    runs = cyc = 0
    full = []
    try:
        while True:
            _, rows, _, err = realsim.one(cfg, seed * 7919 + runs, cycles, [], dut, runs % 4 == 3)
            ins, outs = tap.ins, tap.outs
            tap.ins, tap.outs = [], []
            got = c.run(ins)
            runs += 1
            cyc += len(rows)
            full += [[r[f] for f in FIELDS] for r in rows]
            for k, (a, b) in enumerate(zip(outs, got)):
                bad = differs(a, b)
                if bad:
                    n = len(full) - len(rows) + k
                    return (n, bad, full[:n + 1]), runs, cyc
            if time.time() > end or err:
                return None, runs, cyc
    finally:
        c.close()


def differs(a, b):
    """messages count only while enabled"""
    for n in a:
        if n.endswith("__msg"):
            en = n[:-3] + "en"
            if en in a and not a[en]:
                continue
        if a[n] != b.get(n):
            return f"{n}: model {a[n]:#x}, Verilog {b.get(n, -1):#x}"
    return None


def memory(text, module, ports, params, nbits, nwords, seed, seconds):
    """an SRAM module against an array -> (hit or None, runs, cycles); hit: (text, rows).
    ports: contract name -> (Verilog port, active low)"""
    aw = max(1, (nwords - 1).bit_length())
    wd = dict(idx=aw, wdata=nbits, rdata=nbits, wben=nbits)
    pl = sorted([(n, wd.get(k, 1), "output" if k == "rdata" else "input") for k, (n, _) in ports.items()])
    pl += [("clk", 1, "input"), ("reset", 1, "input")]
    # a top of its own: Verilator drops the ports of a top with "__" in its name
    rng = {n: f"[{w - 1}:0] {n}" for n, w, _ in pl}
    text += "\nmodule memory_top(" + ", ".join(f"{d} logic {rng[n]}" for n, _, d in pl) + ");\n  " + module + \
        (" #(" + ", ".join(f".{k}({v})" for k, v in params) + ")" if params else "") + " m(" + \
        ", ".join(f".{n}({n})" for n, _, _ in pl) + ");\nendmodule\n"
    c = Compiled("memory_top", text, pl)
    N = {k: n for k, (n, _) in ports.items()}
    rnd = random.Random(seed)
    full, end, cyc, runs = (1 << nbits) - 1, time.time() + seconds, 0, 0

    def row(val, typ, a, d, m):
        r = dict(val=val, type=typ, idx=a, wdata=d, wben=m, oeb=0, ce=1)
        r = {n: int(not r[k]) if low else r[k] for k, (n, low) in ports.items() if k != "rdata"}
        return dict(r, reset=0, clk=0, op=(val, typ, a, d, m))
    rows = [row(1, 1, a, rnd.getrandbits(nbits), full) for a in range(nwords)]   # known contents
    mem, want, was = {}, None, None
    try:
        while time.time() < end:
            h = rnd.randrange(nwords)
            hot = [h, h ^ (1 << rnd.randrange(aw)), 0, nwords - 1]
            hot = [x for x in hot if x < nwords]
            for _ in range(400):
                m = rnd.choice([0, full, rnd.getrandbits(nbits), rnd.getrandbits(nbits), 1 << rnd.randrange(nbits)])
                a = rnd.choice(hot) if rnd.random() < .8 else rnd.randrange(nwords)
                rows.append(row(int(rnd.random() < .8), rnd.getrandbits(1), a, rnd.getrandbits(nbits), m))
            got = c.run(rows)
            for k, (r, g) in enumerate(zip(rows, got)):
                if want is not None and g[N["rdata"]] != want:
                    return (f"row {was}: read {g[N['rdata']]:#x}, expected {want:#x}",
                            [dict(zip(("val", "type", "idx", "wdata", "wben"), map(hex, x["op"])))
                             for x in rows[max(0, k - 400):k + 1]]), runs, cyc
                want = None
                val, typ, was, d, m = r["op"]
                if val and typ:
                    mem[was] = (mem.get(was, 0) & ~m) | (d & m)
                elif val:
                    want = mem[was]
                cyc += 1
            runs += 1
            rows = []
        return None, runs, cyc
    finally:
        c.close()
