From 60767d822fb54f656849a792de51b11654c935f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 1/8] fix: clear the MCAUSE interrupt bit when latching a
 synchronous exception

---
 src/sentinel/exception.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/sentinel/exception.py b/src/sentinel/exception.py
index a875ae6..4d21add 100644
--- a/src/sentinel/exception.py
+++ b/src/sentinel/exception.py
@@ -232,7 +232,10 @@ class ExceptionRouter(Component):
         with m.If(self.src.ctrl.except_ctl == ExceptCtl.LATCH_DECODER):
             with m.If(self.src.decode.valid):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(self.src.decode.e_type)
+                m.d.sync += [
+                    mcause_latch.cause.eq(self.src.decode.e_type),
+                    mcause_latch.interrupt.eq(0)
+                ]
 
             with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &
                       self.src.csr.mie.meie):
@@ -248,8 +251,10 @@ class ExceptionRouter(Component):
                       ((self.src.alu_lo[0] == 1) |
                        (self.src.alu_lo[1] == 1)))):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(
-                    MCause.Cause.STORE_MISALIGNED)
+                m.d.sync += [
+                    mcause_latch.cause.eq(MCause.Cause.STORE_MISALIGNED),
+                    mcause_latch.interrupt.eq(0)
+                ]
         with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_LOAD_ADR):
             with m.If((((self.src.ctrl.mem_sel == MemSel.HWORD) &
                         self.src.alu_lo[0] == 1)) |
@@ -257,10 +262,16 @@ class ExceptionRouter(Component):
                       ((self.src.alu_lo[0] == 1) |
                        (self.src.alu_lo[1] == 1)))):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(MCause.Cause.LOAD_MISALIGNED)
+                m.d.sync += [
+                    mcause_latch.cause.eq(MCause.Cause.LOAD_MISALIGNED),
+                    mcause_latch.interrupt.eq(0)
+                ]
         with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_JAL):
             with m.If(self.src.alu_lo[1] == 1):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(MCause.Cause.INSN_MISALIGNED)
+                m.d.sync += [
+                    mcause_latch.cause.eq(MCause.Cause.INSN_MISALIGNED),
+                    mcause_latch.interrupt.eq(0)
+                ]
 
         return m
-- 
2.43.0


From 02d72a352b9a9bead9e0a0b6290e16e9cdc4fc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 2/8] fix: non-32-bit encodings resembling ECALL are illegal
 instructions

---
 src/sentinel/decode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sentinel/decode.py b/src/sentinel/decode.py
index cec058c..0cad555 100644
--- a/src/sentinel/decode.py
+++ b/src/sentinel/decode.py
@@ -395,7 +395,10 @@ class ExceptionControl(Component):
 
             # Catch-all for compressed insns, zero insn.
             with m.If(self.insn[0:2] != 0b11):
-                m.d.sync += self.exception.valid.eq(1)
+                m.d.sync += [
+                    self.exception.valid.eq(1),
+                    self.exception.e_type.eq(MCause.Cause.ILLEGAL_INSN)
+                ]
 
         # Second decode cycle if this is a CSR access.
         with m.If(forward_csr):
-- 
2.43.0


From 837b64c82d981ed8de136948b247ed9b0d94b1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 3/8] fix: place microcode fields by origin and keep every
 padding gap

---
 src/sentinel/ucoderom.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/sentinel/ucoderom.py b/src/sentinel/ucoderom.py
index fc133b3..8129bc3 100644
--- a/src/sentinel/ucoderom.py
+++ b/src/sentinel/ucoderom.py
@@ -2,7 +2,6 @@
 
 from io import IOBase
 from pathlib import Path
-from itertools import tee, zip_longest
 
 from amaranth import Shape, unsigned, Module
 from amaranth.lib.data import StructLayout
@@ -254,12 +253,17 @@ class UCodeROM(Component):
     def _create_field_layout(self, space):
         layout = dict()
         padding_id = 0
+        next_bit = 0
 
-        c, n = tee(space.fields.items())
-        next(n, None)
-        curr_next_pairs = zip_longest(c, n, fillvalue=(None, None))
+        # Fields can be placed in any order, and anywhere in the word.
+        for curr_n, curr_f in sorted(space.fields.items(),
+                                     key=lambda nf: (nf[1].origin,
+                                                     nf[1].width)):
+            if curr_f.origin != next_bit:
+                layout[f"_padding_{padding_id}"] = \
+                    unsigned(curr_f.origin - next_bit)
+                padding_id += 1
 
-        for (curr_n, curr_f), (_, next_f) in curr_next_pairs:
             # bools in m5meta are internally enums, but we'll do just fine with
             # unsigned(1).
             if curr_f.enum and curr_f.enum != {"false": 0, "true": 1}:
@@ -268,9 +272,7 @@ class UCodeROM(Component):
                 layout[curr_n] = \
                     self._check_and_convert_dynamic_shape(curr_f)
 
-            if next_f and curr_f.origin + curr_f.width != next_f.origin:
-                layout[f"_padding_{padding_id}"] = \
-                    unsigned(next_f.origin - (curr_f.origin + curr_f.width))
+            next_bit = curr_f.origin + curr_f.width
 
         self.field_layout = StructLayout(layout)
 
-- 
2.43.0


From 5370ff8b9ab5ac00fe50c0753d4891d4a3aa42be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 4/8] fix: raise ValueError when microcode enum members do not
 match field_map

---
 src/sentinel/ucoderom.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/sentinel/ucoderom.py b/src/sentinel/ucoderom.py
index 8129bc3..2bc51a2 100644
--- a/src/sentinel/ucoderom.py
+++ b/src/sentinel/ucoderom.py
@@ -299,10 +299,16 @@ class UCodeROM(Component):
         except KeyError as e:
             raise ValueError(f"{e.args[0]} was not in field_map") from e
 
-        if not (all(se_class[k.upper()].value == field.enum[k]
-                    for k in field.enum) and
-                all(field.enum[k.name.lower()] == k.value
-                    for k in se_class)):
+        try:
+            compatible = (all(se_class[k.upper()].value == field.enum[k]
+                              for k in field.enum) and
+                          all(field.enum[k.name.lower()] == k.value
+                              for k in se_class))
+        except KeyError:
+            # At least one side has a member the other side lacks.
+            compatible = False
+
+        if not compatible:
             raise ValueError(f"{se_class} in Amaranth source and field {field}"
                              " in microcode source do not have compatible "
                              "fields and values.\n"
-- 
2.43.0


From 659e23826c4752f8202ecf78dfa5e30763bacc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 5/8] fix: document the actual mret throughput of 7 CPI

---
 doc/development/internals.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doc/development/internals.md b/doc/development/internals.md
index a467926..e6868dc 100644
--- a/doc/development/internals.md
+++ b/doc/development/internals.md
@@ -265,7 +265,7 @@ examining the microcode (knowing that each microcode instruction always takes
   * At maximum, `csrrc` has a latency of 11 CPI, and a throughput of 10 CPI.
 * Entering an exception handler requires 5 clocks from the cycle at which
   the exception condition is detected.
-  * `mret` has a latency and throughput of 8 CPI. 
+  * `mret` has a latency of 8 CPI, and a throughput of 7 CPI. 
 
 (csrs)=
 ## CSRs
-- 
2.43.0


From b1a348f9cffcbb158f7bcf05783fd1bf0e07f8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:38 +0000
Subject: [PATCH 6/8] fix: report a microcode enum declared with a non-enum
 shape as ValueError

---
 src/sentinel/ucoderom.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sentinel/ucoderom.py b/src/sentinel/ucoderom.py
index 2bc51a2..6c51933 100644
--- a/src/sentinel/ucoderom.py
+++ b/src/sentinel/ucoderom.py
@@ -304,8 +304,9 @@ class UCodeROM(Component):
                               for k in field.enum) and
                           all(field.enum[k.name.lower()] == k.value
                               for k in se_class))
-        except KeyError:
-            # At least one side has a member the other side lacks.
+        except (KeyError, TypeError):
+            # At least one side has a member the other side lacks, or the
+            # Amaranth side is not an enum at all.
             compatible = False
 
         if not compatible:
-- 
2.43.0


From bdc5c08233405c8ab14a95077dd4beac7968f616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:57 +0000
Subject: [PATCH 7/8] fix: report no RVFI destination register for an
 instruction that traps

---
 src/sentinel/formal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sentinel/formal.py b/src/sentinel/formal.py
index f45ab2f..94c47eb 100644
--- a/src/sentinel/formal.py
+++ b/src/sentinel/formal.py
@@ -378,8 +378,12 @@ class FormalTop(Component):
 
         # Will be reset every time we commit to a new insn. But should be
         # overridden if there's an exception during the commit cycle.
+        # An insn that traps does not write its destination register.
         with m.If(self.cpu.rvfi.exception):
-            m.d.sync += self.rvfi.trap.eq(1)
+            m.d.sync += [
+                self.rvfi.trap.eq(1),
+                self.rvfi.rd_addr.eq(0),
+            ]
 
         # Non-insn memory accesses.
         with m.If(~self.cpu.control.mem.insn_fetch & self.cpu.control.mem.req &
-- 
2.43.0


From f946539e500b6828293f3a5c6a66d929cf9809ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:21 +0000
Subject: [PATCH 8/8] fix: report MSTATUS before and after traps and MRET on
 the RVFI CSR port

---
 src/sentinel/formal.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/sentinel/formal.py b/src/sentinel/formal.py
index 94c47eb..144b783 100644
--- a/src/sentinel/formal.py
+++ b/src/sentinel/formal.py
@@ -7,7 +7,7 @@ from amaranth_soc import wishbone
 
 from .top import Top
 from .datapath import CSRFile
-from .ucodefields import CSROp
+from .ucodefields import CSROp, ExceptCtl
 
 
 class FormalTop(Component):
@@ -532,6 +532,30 @@ class FormalTop(Component):
                     ]
                     m.d.comb += mepc_port.en.eq(0)
 
+        # Traps and MRET update MSTATUS without a CSR write.
+        mstatus_r = self.cpu.datapath.csr.mstatus_r
+        mstatus_stack = Signal.like(mstatus_r)
+        m.d.comb += mstatus_stack.eq(mstatus_r)
+        with m.Switch(self.cpu.control.csr.ctrl.exception):
+            with m.Case(ExceptCtl.ENTER_INT):
+                m.d.comb += [
+                    mstatus_stack.mpie.eq(mstatus_r.mie),
+                    mstatus_stack.mie.eq(0)
+                ]
+                m.d.sync += [
+                    self.rvfi.csr.mstatus.wdata.eq(mstatus_stack),
+                    mstatus_hold_rd.eq(1)
+                ]
+            with m.Case(ExceptCtl.LEAVE_INT):
+                m.d.comb += [
+                    mstatus_stack.mie.eq(mstatus_r.mpie),
+                    mstatus_stack.mpie.eq(1)
+                ]
+                m.d.sync += [
+                    self.rvfi.csr.mstatus.wdata.eq(mstatus_stack),
+                    mstatus_hold_rd.eq(1)
+                ]
+
         # Read-only zero CSRs
         # Read-only ops are optimized, so we can't inspect the datapath for
         # their values. We'll have to manually construct the expected values
-- 
2.43.0

