From 46a957692b9a9f7da17db0c761465a40afbbf3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 1/4] fix: mark every word of a multi-word write dirty

With a data bitwidth above 32, a write of 8 or 16 bytes covers two or four
32-bit words, but only the dirty bit of the first one was set (and checked on
a write hit), so the other words were dropped when the line was written back.
---
 blocking_cache/units/UpdateTagArrayUnit.py | 27 +++++-------
 blocking_cache/units/arithmetics.py        | 50 ++++++++++++++++++----
 2 files changed, 52 insertions(+), 25 deletions(-)

diff --git a/blocking_cache/units/UpdateTagArrayUnit.py b/blocking_cache/units/UpdateTagArrayUnit.py
index d81bd35..8fefade 100644
--- a/blocking_cache/units/UpdateTagArrayUnit.py
+++ b/blocking_cache/units/UpdateTagArrayUnit.py
@@ -11,6 +11,7 @@ Date:   17 March 2020
 from pymtl3 import *
 
 from ..cache_constants import *
+from .arithmetics      import WordMaskGen
 
 class UpdateTagArrayUnit( Component ):
   """
@@ -25,6 +26,11 @@ class UpdateTagArrayUnit( Component ):
     s.wr_len      = InPort (p.bitwidth_len)       # for double-word CIFER hack
     s.out         = OutPort(p.StructTagArray)
 
+    # Words of the cacheline covered by the write
+    s.wr_words = m = WordMaskGen(p)
+    m.offset //= s.offset
+    m.len_   //= s.wr_len
+
     @update
     def new_tag_array_entry_logic():
       s.out.tag @= s.old_entries[s.way].tag
@@ -32,29 +38,18 @@ class UpdateTagArrayUnit( Component ):
       s.out.dty @= s.old_entries[s.way].dty
 
       if s.cmd == UpdateTagArrayUnit_CMD_WR_REFILL:
-        # Refill on a write, mark the word being written as dirty, the
-        # rest is clean
+        # Refill on a write, mark the word(s) being written as dirty,
+        # the rest is clean
         s.out.val @= CACHE_LINE_STATE_VALID
-        s.out.dty @= 0 | s.refill_dty
-        s.out.dty[ s.offset[2 : p.bitwidth_offset] ] @= 1
-        # moyang: this is a hack for CIFER project. When len == 3, we
-        # zero-extend the 32-bit word to a 64-bit double word, so we need to
-        # set the dirty bits of two words
-        if s.wr_len == 3:
-          s.out.dty[ s.offset[2 : p.bitwidth_offset] + 1 ] @= 1
+        s.out.dty @= s.refill_dty | s.wr_words.out
       elif s.cmd == UpdateTagArrayUnit_CMD_RD_REFILL:
         # Refill for a read, simply mark valid bit and clear the dirty
         # bits
         s.out.val @= CACHE_LINE_STATE_VALID
         s.out.dty @= 0 | s.refill_dty
       elif s.cmd == UpdateTagArrayUnit_CMD_WR_HIT:
-        # Hit a clean word, mark the word as dirty
-        s.out.dty[ s.offset[2 : p.bitwidth_offset] ] @= 1
-        # moyang: this is a hack for CIFER project. When len == 3, we
-        # zero-extend the 32-bit word to a 64-bit double word, so we need to
-        # set the dirty bits of two words
-        if s.wr_len == 3:
-          s.out.dty[ s.offset[2 : p.bitwidth_offset] + 1 ] @= 1
+        # Hit a clean word, mark the word(s) being written as dirty
+        s.out.dty @= s.old_entries[s.way].dty | s.wr_words.out
       elif s.cmd == UpdateTagArrayUnit_CMD_CLEAR:
         # Clear the entire entry
         s.out.tag @= 0
diff --git a/blocking_cache/units/arithmetics.py b/blocking_cache/units/arithmetics.py
index d3266ca..b0a4066 100644
--- a/blocking_cache/units/arithmetics.py
+++ b/blocking_cache/units/arithmetics.py
@@ -230,6 +230,38 @@ class WriteBitEnGen( Component ):
     msg = f'o[{s.out}] '
     return msg
 
+class WordMaskGen( Component ):
+  """
+  Decodes which 32-bit words of the cacheline an access touches (one bit per
+  word, the granularity of the dirty bits)
+  """
+  def construct(s, p):
+    s.offset = InPort(p.bitwidth_offset)
+    s.len_   = InPort(p.bitwidth_len)
+    s.out    = OutPort(p.bitwidth_dirty)
+
+    # len == 0 accesses the full data bitwidth
+    full_mask   = 2**(p.bitwidth_data // 32) - 1
+    double_mask = 3 if p.bitwidth_dirty > 1 else 1
+
+    s.mask = Wire(p.bitwidth_dirty)
+
+    @update
+    def mask_logic():
+      s.mask @= 1
+      if s.len_ == 0:
+        s.mask @= full_mask
+      elif s.len_ == 3:
+        # moyang: this is a hack for CIFER project. When len == 3, we
+        # zero-extend the 32-bit word to a 64-bit double word, so it touches
+        # two words
+        s.mask @= double_mask
+      elif s.len_ == trunc(Bits32(8), p.bitwidth_len):
+        # truncated to 0 if the data bitwidth is at most 64 bits
+        s.mask @= double_mask
+
+    s.out //= lambda: s.mask << zext(s.offset[2 : p.bitwidth_offset], p.bitwidth_dirty)
+
 class TagArrayRDataProcessUnit( Component ):
   """
   Processes all incoming data from the tag array(s).
@@ -250,19 +282,19 @@ class TagArrayRDataProcessUnit( Component ):
     s.line_dirty = OutPort(p.associativity) # If the line is dirty
     s.tag_entires= [ OutPort(p.StructTagArray) for _ in range(p.associativity) ]
 
+    # Words of the cacheline covered by the access
+    s.wr_words = m = WordMaskGen(p)
+    m.offset //= s.offset
+    m.len_   //= s.wr_len
+
     # word dirty logic
     @update
     def word_dirty_logic():
       for i in range(p.associativity):
-        # moyang: this is a CIFER hack. When writing a double word (zero
-        # extending a 32-bit word to a 64-bit double word), we only consider the
-        # double word dirty if both 32-bit words are dirty, because we need to
-        # stall the pipeline to set the two dirty bits if any of them is not
-        # already dirty.
-        if s.wr_len == 3:
-          s.word_dirty[i] @= s.tag_array[i].dty[ s.offset[2 : p.bitwidth_offset] ] & s.tag_array[i].dty[ s.offset[2 : p.bitwidth_offset] + 1 ]
-        else:
-          s.word_dirty[i] @= s.tag_array[i].dty[ s.offset[2 : p.bitwidth_offset] ]
+        # An access that touches more than one word is only considered dirty if
+        # all of its words are dirty, because we need to stall the pipeline to
+        # set the dirty bits if any of them is not already dirty.
+        s.word_dirty[i] @= ( s.tag_array[i].dty & s.wr_words.out ) == s.wr_words.out
 
     @update
     def line_dirty_logic():
-- 
2.43.0


From 41c29019ef4eff8b38838d4f46837a1716f45289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:03 +0000
Subject: [PATCH 2/4] fix: AMO on an untouched or high line in the
 functional-level cache

ModelCache.amo created the line under one key and read it back under
another, so an AMO to a line not touched before, or at or above
0x80000000, raised KeyError.
---
 blocking_cache/BlockingCacheFL.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blocking_cache/BlockingCacheFL.py b/blocking_cache/BlockingCacheFL.py
index 1a3cfb5..488699a 100644
--- a/blocking_cache/BlockingCacheFL.py
+++ b/blocking_cache/BlockingCacheFL.py
@@ -283,17 +283,17 @@ class ModelCache:
   def amo(self, addr, value, opaque, len_, func):
     # AMO operations are on the word level only
     self.tracker.amo_req(addr)
-    new_addr = addr[self.offset_end:32]
+    new_addr = int(addr[self.offset_end:32])
     offset = int(addr[self.offset_start:self.offset_end])
     if new_addr not in self.mem:
       self.mem[new_addr] = Bits(self.mem_bitwidth_data, 0)
-    ret = self.mem[new_addr.int()][offset * 8 : (offset + 4) * 8]
+    ret = self.mem[new_addr][offset * 8 : (offset + 4) * 8]
     
     value = trunc(value, 32)
     amo_out = AMO_FUNS[ int(func) ]( ret, value )
     ret = zext( ret, self.cache_bitwidth_data )
     value = zext( value, self.cache_bitwidth_data )
-    self.mem[new_addr.int()][offset * 8 : (offset + 4) * 8] = amo_out
+    self.mem[new_addr][offset * 8 : (offset + 4) * 8] = amo_out
     
     self.transactions.append(req (self.CacheReqType, func, opaque, addr, len_, value))
     self.transactions.append(resp(self.CacheRespType,func, opaque, 0,    len_, ret))
-- 
2.43.0


From 8049a1708b29f3c6fa1e754b89f8c8e9a2b73838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:10 +0000
Subject: [PATCH 3/4] fix: INIT narrower than the data field in the
 functional-level cache

ModelCache.init assigned the full-width value to a len_-byte slice, which
raises ValueError unless len_ is the full width; write slices it.
---
 blocking_cache/BlockingCacheFL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blocking_cache/BlockingCacheFL.py b/blocking_cache/BlockingCacheFL.py
index 488699a..a4182dd 100644
--- a/blocking_cache/BlockingCacheFL.py
+++ b/blocking_cache/BlockingCacheFL.py
@@ -275,7 +275,7 @@ class ModelCache:
     if len_ == 0:
       self.mem[new_addr][offset*8 : (offset+self.cache_bitwidth_data/8)*8] = value
     else:
-      self.mem[new_addr][offset*8 : (offset + int(len_))*8 ] = value
+      self.mem[new_addr][offset*8 : (offset + int(len_))*8 ] = value[0 : int(len_)*8 ]
     self.transactions.append(req(self.CacheReqType,'in', opaque, addr, len_, value))
     self.transactions.append(resp(self.CacheRespType,'in', opaque, 0, len_, 0))
     self.opaque += 1
-- 
2.43.0


From dfac0f411936916bc0a432570dd1aeeb0172342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:58 +0000
Subject: [PATCH 4/4] fix: caches with 1024 or more lines per way elaborate

ReplacementBitsReg kept the replacement bits of all sets in one Bits value,
which PyMTL3 limits to 1023 bits, so e.g. a 32 KB two-way cache with 128-bit
lines could not be built. Keep one 1-bit register per line instead.
---
 blocking_cache/units/registers.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/blocking_cache/units/registers.py b/blocking_cache/units/registers.py
index 1026c59..409d374 100644
--- a/blocking_cache/units/registers.py
+++ b/blocking_cache/units/registers.py
@@ -24,22 +24,26 @@ class ReplacementBitsReg( Component ):
     s.raddr = InPort( p.BitsIdx )
     s.rdata = OutPort()
 
-    s.replacement_register = m = RegEnRst( p.BitsNlinesPerWay )
-    m.en //= s.wen
+    # one register per line; a single Bits for all of them could not be
+    # wider than 1023 bits
 
     nblocks_per_way  = p.nblocks_per_way
 
-    @update
-    def update_register_bits():
-      for i in range( nblocks_per_way ):
-        if s.waddr == i:
-          s.replacement_register.in_[i] @= s.wdata
-        else:
-          s.replacement_register.in_[i] @= s.replacement_register.out[i]
+    s.replacement_bits = [ Wire() for _ in range( nblocks_per_way ) ]
+
+    @update_ff
+    def update_replacement_bits():
+      if s.reset:
+        for i in range( nblocks_per_way ):
+          s.replacement_bits[i] <<= 0
+      elif s.wen:
+        s.replacement_bits[s.waddr] <<= s.wdata
 
-      s.rdata @= s.replacement_register.out[s.raddr]
+    @update
+    def read_replacement_bit():
+      s.rdata @= s.replacement_bits[s.raddr]
 
   def line_trace( s ):
     msg = ""
-    msg += f'bits[{s.replacement_register.out}]'
+    msg += f"bits[{''.join( str(b) for b in reversed(s.replacement_bits) )}]"
     return msg
-- 
2.43.0

