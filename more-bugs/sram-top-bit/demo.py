"""The SRAM wrapper as a 128 x 26 memory, run by Verilator: every enabled bit of
the addressed row is written."""
import os
import shutil
import subprocess
import sys
import tempfile

STUB = """
module sram_256x25 (
  input logic CLK, input logic CEN, input logic RDWEN, input logic [7:0] A, input logic [24:0] D,
  input logic [24:0] BW, input logic T_LOGIC, input logic T_Q_RST, output logic [24:0] Q,
  output logic [1:0] OBSV_CTL, input logic MA_SAWL, input logic MA_WL, input logic MA_VD1,
  input logic MA_VD0, input logic MA_WRT);
  assign Q = 0;
  assign OBSV_CTL = 0;
endmodule
module sram_512x128 (
  input logic CLK, input logic CEN, input logic RDWEN, input logic [8:0] A, input logic [127:0] D,
  input logic [127:0] BW, input logic T_LOGIC, input logic T_Q_RST, output logic [127:0] Q,
  output logic [1:0] OBSV_CTL, input logic MA_SAWL, input logic MA_WL, input logic MA_VD1,
  input logic MA_VD0, input logic MA_WRT);
  assign Q = 0;
  assign OBSV_CTL = 0;
endmodule
module demo_top (input logic clk, input logic nval, input logic nwr, input logic [6:0] a, input logic [25:0] d,
                 input logic [25:0] m, output logic [25:0] q);
  SramGenericPRTL #(.num_bits(26), .num_words(128)) s (.clk(clk), .reset(1'b0), .CE1(clk), .CSB1(nval), .WEB1(nwr),
    .A1(a), .I1(d), .WBM1(m), .OEB1(1'b0), .O1(q));
endmodule
"""
MAIN = r"""
#include "Vdemo_top.h"
#include <cstdio>
#include <cstdlib>
static unsigned ref[128];
int main() {
  Vdemo_top *t = new Vdemo_top; int bad = 0;
  auto tick = [&] { t->clk = 0; t->eval(); t->clk = 1; t->eval(); t->clk = 0; t->eval(); };
  auto wr = [&](unsigned a, unsigned d, unsigned m) {
    t->nval = 0; t->nwr = 0; t->a = a; t->d = d; t->m = m; tick(); ref[a] = (ref[a] & ~m) | (d & m);
  };
  for (int i = 0; i < 128; ++i) wr(i, 0, 0x3ffffff);
  srand(7);
  for (int i = 0; i < 4000; ++i) {
    unsigned r = rand(), a = rand() % 128;
    if (rand() % 2) wr(a, r & 0x3ffffff, (rand() % 2) ? 0x3ffffff : (1u << (rand() % 26)));
    else {
      t->nval = 0; t->nwr = 1; t->a = a; tick();
      if (t->q != ref[a]) { if (!bad++) printf("row %u: %x, expected %x\n", a, t->q, ref[a]); }
    }
  }
  printf("%d reads wrong\n", bad);
  return bad != 0;
}
"""
d = tempfile.mkdtemp()
try:
    with open("sram/brg_gf14_sram_generic_synopsys.v") as f:
        text = f.read()
    with open(f"{d}/t.v", "w") as f:
        f.write(text + STUB)
    with open(f"{d}/main.cpp", "w") as f:
        f.write(MAIN)
    p = subprocess.run(["verilator", "--cc", "--exe", "--build", "-Wno-fatal", "-Wno-lint", "-Wno-style", "--top-module",
                        "demo_top", "--unroll-count", "100000", "--unroll-stmts", "100000", "-Mdir", f"{d}/o", f"{d}/t.v", f"{d}/main.cpp"], cwd=d, capture_output=True,
                       text=True)
    if p.returncode:
        print((p.stdout + p.stderr)[-2000:])
        sys.exit(2)
    sys.exit(subprocess.run([f"{d}/o/Vdemo_top"]).returncode)
finally:
    shutil.rmtree(d, ignore_errors=True)
